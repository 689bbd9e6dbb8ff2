"""C20: the bracketing root finder."""
import math, subprocess
from vlib.check import Batch
from vlib.fits import num


def F(k, a, b, c, x):
    if k == "linear":
        return a * x + b, max(abs(a * x), abs(b))
    if k == "cubic":
        d = x - c
        return a * d ** 3 + b * d, max(abs(a * d ** 3), abs(b * d), (3 * abs(a) * d * d + abs(b)) * abs(c))
    if k == "exp":
        return a * math.exp(b * x) + c, max(abs(a * math.exp(b * x)) * (1 + abs(b * x)), abs(c))
    if k == "atan":
        return a * math.atan(b * (x - c)), abs(a) * (1 + abs(b * c))
    if k == "kink":
        return (a if x < c else b) * (x - c), max(abs(a), abs(b)) * (abs(x) + abs(c))
    t = a * math.sin(x)
    if k == "iso":
        u = math.tan(math.pi / 4 + x / 2)
        return (math.log(u) if u > 0 else -40) + a / 2 * math.log((1 - t) / (1 + t)), 40
    if k == "stereo":
        v = b * math.tan(math.pi / 4 - x / 2) * ((1 + t) / (1 - t)) ** (a / 2)
        return v, abs(v) * (4 + 2 * a / max(1e-3, 1 - abs(t)))
    raise ValueError(k)


def request(rng):
    kind = rng.choice(["linear", "cubic", "exp", "atan", "kink", "iso", "iso", "stereo", "stereo"])
    sgn = rng.choice([1, -1])
    mag = lambda lo, hi: 10 ** rng.uniform(lo, hi)
    a, b, c = sgn * mag(-3, 4), rng.uniform(-100, 100), rng.uniform(-5, 5)
    xl, xh = sorted([rng.choice([0, 1, -1, -2, 10, rng.uniform(-20, 20), rng.uniform(-2000, 2000)]),
                     rng.choice([3, 5, -5, .5, rng.uniform(-20, 20), rng.uniform(-3000, 3000)])])
    if xl == xh:
        xh = xl + 1
    if kind == "cubic":
        b = sgn * mag(-3, 3) * rng.choice([0, 1])
    if kind == "exp":
        b = rng.choice([1, -1]) * mag(-2, 0)
        xl, xh = max(-20, xl), min(20, xh)
        if xl >= xh:
            xl, xh = -3, 4
    if kind == "atan":
        b = rng.choice([1, -1]) * mag(-2, 2)
    if kind == "kink":
        a, b = sgn * mag(-3, 3), sgn * mag(-3, 3)
    if kind in ("iso", "stereo"):
        q = rng.choice([1, 1, .999, .97, .9, .7, .5, .3])
        a = math.sqrt(1 - q * q)
        b, c = mag(-2, 5), 0.0
        xl, xh = -math.pi / 2, math.pi / 2
        if rng.random() < .3:
            xl, xh = sorted([rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5)])
    if kind == "linear" and rng.random() < .2:
        b = 0.0
    if kind in ("linear", "atan", "kink") and rng.random() < .3:     # values far smaller than the arguments
        s = mag(-9, -4)
        a *= s
        b *= s if kind != "atan" else 1
    a, b, c, xl, xh = (float("%.12g" % v) if abs(abs(v) - math.pi / 2) > 1e-6 else v for v in (a, b, c, xl, xh))
    fl, fh = F(kind, a, b, c, xl)[0], F(kind, a, b, c, xh)[0]
    r = rng.random()
    if r < .08:
        y = fl
    elif r < .16:
        y = fh
    elif r < .3 and kind != "stereo":
        w = abs(fh - fl) or 1
        y = rng.choice([max(fl, fh) + w * rng.choice([1e-6, .1, 3]), min(fl, fh) - w * rng.choice([1e-6, .1, 3])])
    else:
        t = rng.choice([rng.uniform(xl, xh), rng.uniform(xl, xh), xl + (xh - xl) * mag(-9, 0),
                        xh - (xh - xl) * mag(-9, 0), (xl + xh) / 2, 0.0, c])
        t = min(max(t, xl), xh)
        y = F(kind, a, b, c, t)[0]
    noise = max(F(kind, a, b, c, xl)[1] if kind != "stereo" else 0, F(kind, a, b, c, xh)[1] if kind != "stereo" else 0)
    if kind == "stereo":
        noise = abs(y) * (4 + 2 * a / max(1e-3, 1 - a)) + abs(b) * 4
    if kind == "kink" or kind == "cubic":
        noise = max(noise, F(kind, a, b, c, c)[1])
    if rng.random() < .4:
        xl, xh = xh, xl
    return dict(kind=kind, a=a, b=b, c=c, y=y, xl=xl, xh=xh, noise=noise)


def recorder(reqs):
    def rec(ctx):
        inp = "".join("%s %r %r %r %r %r %r\n" % (q["kind"], q["a"], q["b"], q["c"], q["y"], q["xl"], q["xh"])
                      for q in reqs)
        try:
            r = subprocess.run([ctx.exe("rootfind")], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, timeout=60)
            out = r.stdout.splitlines()
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode().splitlines()
        ev = []
        for i, q in enumerate(reqs):
            w = out[i].split() if i < len(out) else ["none", "0", "0"]
            ev.append(dict(op="solve", q={k: (v if k == "kind" else num(float(v))) for k, v in q.items()},
                           ans=w[0], x=num(float(w[1]))))
        return dict(cfg={}, ev=ev, _input=inp)
    return rec


def corrupt(s, rng):
    for e in s["ev"]:
        if e["ans"] == "ok":
            e["x"] = repr(float(e["x"]) + .01)
            return s


def plan(rng, tier):
    n = 200 if tier == "quick" else 3000
    recs = [("solve-%d" % i, recorder([request(rng) for _ in range(25)])) for i in range(n)]
    return dict(harnesses=("rootfind",), batches=[Batch("RootFindTrace", recs, corrupt=corrupt)],
                models=[dict(module="RootFindMC", cfg="RootFindMC.cfg", cover=("Newton", "Bisect", "Finish"))],
                rule="25 random monotone functions, brackets and targets per scenario; end points, targets outside")
