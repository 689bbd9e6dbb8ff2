"""C27: vectors, matrices, rotations and the spheroid."""
import math, subprocess
from vlib.check import Batch
from vlib.fits import num

PI = math.pi
DIMS = {333: (3, 3, 3), 234: (2, 3, 4), 111: (1, 1, 1), 412: (4, 1, 2), 321: (3, 2, 1)}


def real(rng, lo=-4, hi=5):
    r = rng.random()
    if r < .25:
        return float(rng.randint(-9, 9))
    if r < .3:
        return 0.0
    return float("%.15g" % (rng.choice([-1, 1]) * 10 ** rng.uniform(lo, hi)))


def lat(rng):
    return rng.choice([0.0, PI / 2, -PI / 2, PI / 4, rng.uniform(-PI / 2, PI / 2), rng.uniform(-PI / 2, PI / 2), rng.uniform(-1.6e-3, 1.6e-3),
                       PI / 2 - 10 ** rng.uniform(-9, -1), -PI / 2 + 10 ** rng.uniform(-9, -1)])


def lon(rng):
    return rng.choice([0.0, PI, -PI, PI / 2, 2 * PI, rng.uniform(-2 * PI, 2 * PI), rng.uniform(0, 2 * PI), rng.uniform(0, 2 * PI)])


def any_body(rng):
    eq = rng.choice([71492.0, 1.0, 6378.137, 10 ** rng.uniform(-2, 6), 10 ** rng.uniform(-8, 14)])
    return eq, eq * rng.choice([1, .9, .935, .999, .5, .1, rng.uniform(.2, 1)])


def body_req(rng):
    eq, pol = any_body(rng)
    if rng.random() < .3:
        eq, pol = rng.choice([(0.0, 0.0), (eq, 0.0), (0.0, pol), (-eq, pol), (eq, -pol), (-eq, -eq), (pol, eq * 1.0000001), (eq, eq * (1 + 1e-12)),
                              (eq, 2 * eq), (float("nan"), pol), (eq, float("nan")), (-pol, -eq), (eq, eq), (eq, eq * (1 - 1e-12))])
    return dict(op="body", eq=eq, pol=pol)


def request(rng, b):
    k = rng.choice(["lat", "lat", "dist", "light", "light", "light", "meet", "meet", "meet", "rot", "rot", "vec", "vec", "mat", "mat", "quad", "quad", "sign", "flip"])
    eq, pol = b
    if k == "lat":
        return dict(op=k, lat=lat(rng))
    if k == "dist":
        return dict(op=k, lat=rng.choice([0.0, rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5), 1.5, -1.5, 1e-9]))
    if k == "light":
        o, s, p = [lat(rng), lon(rng)], [lat(rng), lon(rng)], [lat(rng), lon(rng)]
        if rng.random() < .3:
            p = [max(-PI / 2, min(PI / 2, o[0] + rng.uniform(-.3, .3))), o[1] + rng.uniform(-.3, .3)]
        if rng.random() < .15:
            p = list(o)
        if rng.random() < .1:
            s = list(o)
        return dict(op=k, o=o, s=s, p=p, range=eq * rng.choice([1.01, 1.2, 2, 10, 10 ** rng.uniform(.1, 5)]))
    if k == "meet":
        R = eq * rng.choice([1.2, 2, 10, 10 ** rng.uniform(.05, 3.5)])
        la, lo = lat(rng), lon(rng)
        v = [R * math.cos(la) * math.sin(lo), -R * math.cos(la) * math.cos(lo), R * math.sin(la)]
        r = rng.random()
        if r < .04:
            d = [0.0, 0.0, 0.0]
        elif r < .12:
            d = [real(rng) or 1.0 for _ in range(3)]
        else:
            t = [eq * rng.uniform(-1, 1), eq * rng.uniform(-1, 1), pol * rng.uniform(-1, 1)]
            if rng.random() < .2:
                t = [0.0, 0.0, 0.0]
            s = rng.choice([1, 1, 1e-3, 7, 1 / R, 10 ** rng.uniform(-20, 8)]) * (-1 if rng.random() < .12 else 1)
            d = [s * (x - y) for x, y in zip(t, v)]
        return dict(op=k, v=v, d=d)
    if k == "rot":
        return dict(op=k, axis=rng.choice("xyz"), t=rng.choice([0.0, PI / 2, -PI / 2, PI, rng.uniform(-7, 7), rng.uniform(-7, 7), rng.uniform(-1e-4, 1e-4)]),
                    v=[real(rng) for _ in range(3)])
    if k == "vec":
        n = rng.randint(1, 5)
        if rng.random() < .2:
            f = lambda: rng.randint(-100, 100)
            a = [f() for _ in range(n)]
            c = dict(op="ivec", n=n, a=a, b=[f() for _ in range(n)], k=rng.randint(-9, 9))
        else:
            e = rng.choice([0, 0, 0, 0, 180, -180]) if n <= 3 else 0
            a = [real(rng) * 10.0 ** e for _ in range(n)]
            c = dict(op="vec", n=n, a=a, b=[real(rng) for _ in range(n)], k=real(rng))
            if e:
                c["b"], c["k"] = [0.0] * n, 1.0
        r = rng.random()
        if r < .2 and max(map(abs, a)) < 1e9:
            c["b"] = list(a)
        elif r < .35 and c["op"] == "ivec":
            c["b"] = list(a)
            c["b"][rng.randrange(n)] += 1
        elif r < .35 and max(map(abs, a)) < 1e6:
            c["b"] = list(a)
            c["b"][rng.randrange(n)] += 1.0
        if not any(a):
            a[rng.randrange(n)] = 1 if c["op"] == "ivec" else -2.0
        return c
    if k == "mat":
        d = rng.choice(list(DIMS))
        m, n, r = DIMS[d]
        a = [real(rng) for _ in range(m * n)]
        b2 = [real(rng) for _ in range(m * n)]
        if rng.random() < .2:
            b2 = list(a)
            if rng.random() < .5:
                b2[rng.randrange(m * n)] += 1.0
        return dict(op=k, d=d, a=a, b=b2, c=[real(rng) for _ in range(n * r)], x=[real(rng) for _ in range(n)], k=real(rng))
    if k == "quad":
        r = rng.random()
        if r < .35:      # whole numbers, often with a double root
            a = float(rng.choice([1, 2, -1, 3, rng.randint(1, 20)]))
            p, q = rng.randint(-9, 9), rng.randint(-9, 9)
            if rng.random() < .5:
                q = p
            return dict(op=k, a=a, b=float(-a * (p + q)), c=float(a * p * q) + rng.choice([0, 0, 0, 1, -1]))
        if r < .5:       # roots of very different size
            a, p, q = real(rng) or 1.0, 10 ** rng.uniform(2, 7), 10 ** rng.uniform(-7, -2)
            s = rng.choice([1, -1])
            return dict(op=k, a=a, b=-a * (s * p + q), c=a * s * p * q)
        return dict(op=k, a=real(rng) or 1.0, b=real(rng), c=real(rng))
    if k == "sign":
        return dict(op=k, x=rng.choice([0.0, -0.0, real(rng), 1e-300, -1e-300, real(rng)]))
    w, h = rng.randint(1, 6), rng.randint(1, 6)
    n = w * h + (rng.choice([-1, 1, w, -w]) if rng.random() < .15 else 0)
    return dict(op="flip", w=w, h=h, p=[rng.randint(0, 99) for _ in range(max(0, n))])


def line(q):
    o = q["op"]
    g = lambda xs: " ".join(repr(x) for x in xs)
    if o == "body":
        return "body %r %r" % (q["eq"], q["pol"])
    if o in ("lat", "dist"):
        return "%s %r" % (o, q["lat"])
    if o == "light":
        return "light " + g(q["o"] + q["s"] + q["p"] + [q["range"]])
    if o == "meet":
        return "meet " + g(q["v"] + q["d"])
    if o == "rot":
        return "rot %s %r %s" % (q["axis"], q["t"], g(q["v"]))
    if o in ("vec", "ivec"):
        return "%s %d %s" % (o, q["n"], g(q["a"] + q["b"] + [q["k"]]))
    if o == "mat":
        return "mat %d %s" % (q["d"], g(q["a"] + q["b"] + q["c"] + q["x"] + [q["k"]]))
    if o == "quad":
        return "quad %r %r %r" % (q["a"], q["b"], q["c"])
    if o == "sign":
        return "sign %r" % q["x"]
    return "flip %d %d %d %s" % (q["w"], q["h"], len(q["p"]), g(q["p"]))


def event(q, ans):
    o = q["op"]
    N = lambda xs: [num(float(x)) for x in xs]
    part = [p.split() for p in ans.split("|")]
    head = part[0][1:]
    if ans.split(" ")[0].rstrip() != "@" + ("vec" if o == "ivec" else o):
        raise ValueError(ans)
    if o == "body":
        return dict(op=o, eq=num(q["eq"]), pol=num(q["pol"]), ok=head[0] == "1", r=N(head[1:]))
    if o in ("lat", "dist"):
        return dict(op=o, lat=num(q["lat"]), r=N(head))
    if o == "light":
        return dict(op=o, o=N(q["o"]), s=N(q["s"]), p=N(q["p"]), range=num(q["range"]), r=N(head))
    if o == "meet":
        return dict(op=o, v=N(q["v"]), d=N(q["d"]), code=int(head[0]), lat=num(float(head[1])), lon=num(float(head[2])))
    if o == "rot":
        return dict(op=o, axis=q["axis"], t=num(q["t"]), v=N(q["v"]), r=N(head), m=N(part[1]), mv=N(part[2]))
    if o in ("vec", "ivec"):
        f = part[6]
        return dict(op="vec", a=N(q["a"]), b=N(q["b"]), k=num(float(q["k"])), mag=num(float(head[0])), sum=N(part[1]), dif=N(part[2]), ak=N(part[3]),
                    ka=N(part[4]), dot=num(float(part[5][0])), eq=f[0] == "1", ne=f[1] == "1", bad=int(f[2]), sum2=N(part[7]), dif2=N(part[8]),
                    ak2=N(part[9]), unit=N(part[10]))
    if o == "mat":
        f = part[7]
        return dict(op=o, dim=list(DIMS[q["d"]]), a=N(q["a"]), b=N(q["b"]), c=N(q["c"]), x=N(q["x"]), k=num(q["k"]), sum=N(head), dif=N(part[1]),
                    ak=N(part[2]), ka=N(part[3]), tr=N(part[4]), ac=N(part[5]), ax=N(part[6]), eq=f[0] == "1", ne=f[1] == "1", bad=int(f[2]),
                    sum2=N(part[8]), dif2=N(part[9]), ak2=N(part[10]))
    if o == "quad":
        return dict(op=o, a=num(q["a"]), b=num(q["b"]), c=num(q["c"]), ok=head[0] == "1", x=num(float(head[1])), y=num(float(head[2])))
    if o == "sign":
        return dict(op=o, x=num(q["x"]), r=[int(head[0]), int(head[1])])
    return dict(op=o, w=q["w"], h=q["h"], p=q["p"], t=head[0] == "1", u=head[1] == "1", cols=[int(x) for x in part[1]], lines=[int(x) for x in part[2]])


def recorder(reqs):
    inp = "".join(line(q) + "\n" for q in reqs)

    def rec(ctx):
        try:
            r = subprocess.run([ctx.exe("geometry")], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
            out, rc = r.stdout.splitlines(), r.returncode
        except subprocess.TimeoutExpired:
            out, rc = [], -1
        ev = []
        for q, a in zip(reqs, out):
            try:
                ev.append(event(q, a))
            except (ValueError, IndexError):
                break
        if rc != 0 or len(ev) != len(reqs):
            ev.append(dict(op="crash"))
        return dict(cfg={}, ev=ev, _input=inp, _kind="calls")
    return rec


def scenario(rng):
    b = any_body(rng)
    reqs = [dict(op="body", eq=b[0], pol=b[1])]
    for _ in range(24):
        if rng.random() < .1:
            q = body_req(rng)
            reqs.append(q)
            if q["pol"] > 0 and q["eq"] >= q["pol"]:
                b = (q["eq"], q["pol"])
        else:
            reqs.append(request(rng, b))
    return recorder(reqs)


def corrupt(s, rng):
    for e in s["ev"]:
        if e["op"] == "rot":
            e["r"][0] = repr(float(e["r"][0]) + max(1e-6, 1e-6 * abs(float(e["r"][0]))))
            return s
        if e["op"] == "lat":
            e["r"][2] = repr(float(e["r"][2]) + 1e-6)
            return s
    return None


def plan(rng, tier):
    n = 300 if tier == "quick" else 6000
    recs = [("calls-%d" % i, scenario(rng)) for i in range(n)]
    return dict(harnesses=("geometry",), batches=[Batch("GeometryTrace", recs, corrupt=corrupt)],
                models=[dict(module="GeometryMC", cfg="GeometryMC.cfg", cover=("TurnIt", "Mirror", "Walk"))],
                rule="25 calls per scenario on random spheroids, lines of sight, light, rotations, vectors of one to five rows, matrices of "
                     "five shapes, quadratic equations and mirrored images; poles, double roots, observers on the limb's far side, "
                     "impossible bodies and sizes that do not match")
