"""C29: ranges of values, accepted angles, scales for integer types."""
import math, struct, subprocess
from vlib.check import Batch
from vlib.fits import num

LIM = dict(u8=(0, 255), i16=(-32768, 32767), i32=(-2 ** 31, 2 ** 31 - 1), i64=(-2 ** 63, 2 ** 63 - 1),
           f32=(-3.4028234663852886e38, 3.4028234663852886e38), f64=(-1.7976931348623157e308, 1.7976931348623157e308))
TYPES = list(LIM)
INF, NAN = float("inf"), float("nan")
single = lambda x: struct.unpack("f", struct.pack("f", x))[0]


def own(rng, t):
    """A value of type t itself, exact as a double."""
    lo, hi = LIM[t]
    if t[0] in "ui":
        r = rng.random()
        if r < .12:
            return float(rng.choice([lo, hi if t != "i64" else 2 ** 62]))
        if r < .55:
            return float(max(lo, min(hi, rng.randint(-9, 9) if lo else rng.randint(0, 9))))
        return float(rng.randint(max(lo, -2 ** 52), min(hi, 2 ** 52)))
    x = rng.choice([0.0, float(rng.randint(-9, 9)), rng.uniform(-50, 50), rng.choice([-1, 1]) * 10 ** rng.uniform(-30, 30)])
    if rng.random() < .04:
        x = rng.choice([lo, hi, INF, -INF] if t == "f64" else [lo, hi])
    return single(x) if t == "f32" else x


def free(rng, t):
    """Any double offered to a range of type t."""
    lo, hi = LIM[t]
    r = rng.random()
    if r < .5:
        return own(rng, t)
    if r < .58:
        return rng.choice([float(lo), float(hi)])
    if r < .8:
        k = rng.choice([hi, lo, 256, -1, 32768, -32769, 65536, 2.0 ** 31, -2.0 ** 31 - 1, 2.0 ** 32 + 5, 2.0 ** 63, -2.0 ** 63, 2.0 ** 64, 1e30, -1e30, 1e39, -1e39,
                        1e300, -1e300, INF, -INF])
        return float(k) if isinstance(k, float) and not math.isfinite(k) else float(k) * rng.choice([1, 1, 1.5])
    if r < .85:
        return NAN
    return rng.uniform(-300, 300)


def probes(rng, t, xs):
    out = []
    for _ in range(4):
        r = rng.random()
        x = rng.choice(xs) if xs and r < .6 else own(rng, t)
        if r < .3 and math.isfinite(x):
            x += rng.choice([-1, 1, .5, -.5])
        out.append(x)
    if rng.random() < .05:
        out[0] = NAN
    return out


def extrema_req(rng, seen):
    t = rng.choice(TYPES)
    i, j = rng.randrange(3), rng.randrange(3)
    op = rng.choice(["give", "give", "give", "give", "join", "join", "join", "make", "make", "setlo", "sethi", "reset", "copy", "swap", "carry", "carry"])
    how = rng.choice(["own", "free", "other"])
    x, y = (own(rng, t), own(rng, t)) if how == "own" or op == "give" else (free(rng, t), free(rng, t))
    if op == "make" and x > y and rng.random() < .6:
        x, y = y, x
    u = rng.choice([k for k in TYPES if k != t]) if op == "carry" else t
    xs = seen.setdefault((t, i), [])
    xs += [v for v in (x, y) if not math.isnan(v)]
    del xs[:-6]
    return dict(op=op, t=t, i=i, u=u, j=j, how=how, x=x, y=y, probe=probes(rng, t, xs))


def scale_req(rng):
    t = rng.choice(TYPES)
    span = LIM[t][1] - LIM[t][0] if t[0] in "ui" else 1e6
    r = rng.random()
    if r < .12:
        a, b = rng.choice([(-1.0, 1.0), (0.0, 1.0), (-90.0, 90.0), (0.0, 360.0), (-180.0, 180.0), (0.0, 0.0), (5.0, 5.0), (1.0, -1.0), (NAN, 1.0), (0.0, NAN),
                           (-INF, INF), (0.0, INF), (-1.7e308, 1.7e308), (100.0, 140.0), (0.0, 7.0), (-7.0, 0.0), (200.0, 455.0)])
        return dict(op="scale", t=t, x=a, y=b)
    if r < .2 and t in ("u8", "i16", "i32"):        # the type filled to its last value, or by one too many
        a = float(rng.choice([0, LIM[t][0], -LIM[t][1], 100, rng.randint(-10 ** 6, 10 ** 6)]))
        return dict(op="scale", t=t, x=a, y=a + span + rng.choice([0, 0, 1, -1]))
    w = rng.choice([10 ** rng.uniform(-6, math.log10(span) + .3), span * rng.uniform(.05, .99), rng.choice([1, 2, 3, 5, 7, 9, 9.9, 26, 99]) * 10.0 ** rng.randint(-4, 4)])
    if t == "i64" and w > .98 * span and w < 1.02 * span:
        w = .5 * span
    a = rng.choice([0.0, -w, -w / 2, w * rng.uniform(-1, 0), w * rng.uniform(-30, 30), w * rng.uniform(-1000, 1000)])
    a, w = float("%.8g" % a), float("%.8g" % w)
    return dict(op="scale", t=t, x=a, y=a + w)


def request(rng, seen):
    r = rng.random()
    if r < .62:
        return extrema_req(rng, seen)
    if r < .8:
        return scale_req(rng)
    if r < .92:
        k = rng.choice(["lat", "lon", "pa"])
        m = 90.0 if k == "lat" else 360.0
        x = rng.choice([0.0, m, -m, math.nextafter(m, INF), math.nextafter(-m, -INF), math.nextafter(m, 0), 90.5, -90.5, 180.0, -180.0, 270.0, -m - .25, m + .25,
                        NAN, INF, -INF, 1e300, rng.uniform(-m, m), rng.uniform(-m, m), rng.uniform(-2 * m, 2 * m), 10 ** rng.uniform(-9, 0)])
        return dict(op="angle", k=k, x=x)
    if r < .94:
        return dict(op="empty", t=rng.choice(TYPES))
    t = rng.choice(TYPES)
    n = rng.choice([0, 1, 2, 3, rng.randint(0, 8)])
    return dict(op="plot", t=t, w=rng.choice([0, 1, rng.randint(1, 5000)]), h=rng.choice([1, rng.randint(1, 5000), 2 ** 31 - 1]), kind=rng.choice(["none", "real", "whole"]),
                want=rng.choice([0, -1, 255, 32767, -32768, rng.randint(-10 ** 6, 10 ** 6)]), xs=[own(rng, t) for _ in range(n)])


def line(q):
    o = q["op"]
    if o == "angle":
        return "angle %s %r" % (q["k"], q["x"])
    if o == "empty":
        return "empty " + q["t"]
    if o == "scale":
        return "scale %s %r %r" % (q["t"], q["x"], q["y"])
    if o == "plot":
        return "plot %s %d %d %s %r %d %s" % (q["t"], q["w"], q["h"], q["kind"], float(q["want"]), len(q["xs"]), " ".join(map(repr, q["xs"])))
    return "%s %s %d %s %d %s %r %r %d %s" % (o, q["t"], q["i"], q["u"], q["j"], q["how"], q["x"], q["y"], len(q["probe"]), " ".join(map(repr, q["probe"])))


def bound(w):
    return [] if w == "-" else [num(float(w))]


def state(ws, pr):
    if len(ws) != 3 + len(pr):
        raise ValueError(ws)
    return dict(lo=bound(ws[0]), hi=bound(ws[1]), valid=ws[2] == "1", probe=[dict(v=num(v), yes=w == "1") for v, w in zip(pr, ws[3:])])


def event(q, ans):
    o = q["op"]
    part = [p.split() for p in ans.split("|")]
    if part[0][0] != "@" + o:
        raise ValueError(ans)
    h = part[0][1:]
    if o == "angle":
        return dict(op=o, k=q["k"], x=num(q["x"]), ok=h[0] == "1", r=num(float(h[1])))
    if o == "empty":
        return dict(op=o, t=q["t"], x=num(float(h[0])))
    if o == "scale":
        return dict(op=o, t=q["t"], x=num(q["x"]), y=num(q["y"]), ok=h[0] == "1", s=num(float(h[1])), o=num(float(h[2])))
    if o == "plot":
        w = part[1]
        return dict(op=o, t=q["t"], kind=q["kind"], want=q["want"], xs=[num(x) for x in q["xs"]], now=dict(lo=bound(w[0]), hi=bound(w[1])), mapped=w[2] == "1",
                    count=int(w[3]), size=[w[4], w[5]], asked=[str(q["w"]), str(q["h"])], blank=[] if w[6] == "-" else [int(float(w[6]))])
    e = dict(op=o, t=q["t"], a="%s%d" % (q["t"], q["i"]), b="%s%d" % (q["u"], q["j"]), x=num(q["x"]), y=num(q["y"]), ok=h[0] == "1", now=state(part[1], q["probe"]))
    if o in ("copy", "swap", "carry"):
        e["other"] = state(part[2], q["probe"])
    return e


def recorder(reqs):
    inp = "".join(line(q) + "\n" for q in reqs)

    def rec(ctx):
        try:
            r = subprocess.run([ctx.exe("ranges")], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
            out, rc = r.stdout.splitlines(), r.returncode
        except subprocess.TimeoutExpired:
            out, rc = [], -1
        ev = []
        for q, a in zip(reqs, out):
            try:
                ev.append(event(q, a))
            except (ValueError, IndexError):
                break
        if rc != 0 or len(ev) != len(reqs):
            ev.append(dict(op="crash"))
        return dict(cfg=dict(names=["%s%d" % (t, i) for t in TYPES for i in range(3)]), ev=ev, _input=inp, _kind="calls")
    return rec


def scenario(rng):
    seen = {}
    # half of the histories stay with one or two types, so that they go deep
    few = rng.sample(TYPES, 2) if rng.random() < .5 else None
    reqs = []
    while len(reqs) < 40:
        q = request(rng, seen)
        if few and "i" in q and (q["t"] not in few or q["u"] not in few):
            continue
        reqs.append(q)
    return recorder(reqs)


def corrupt(s, rng):
    for e in s["ev"]:
        if e["op"] == "give":
            e["now"]["hi"] = [repr(float(e["now"]["hi"][0]) + 1 + abs(float(e["now"]["hi"][0])))]
            return s
    return None


def plan(rng, tier):
    n = 400 if tier == "quick" else 8000
    recs = [("calls-%d" % i, scenario(rng)) for i in range(n)]
    return dict(harnesses=("ranges",), batches=[Batch("RangesTrace", recs, corrupt=corrupt)],
                models=[dict(module="RangesMC", cfg="RangesMC.cfg", cover=("GiveAny", "JoinAny", "Make", "SetLo", "SetHi", "Forget", "ExchangeAny", "CarryAny"))],
                rule="histories of 40 calls on eighteen ranges of six data types: data, merges, bounds set alone or together, copies, exchanges, "
                     "conversions between all types, resets, with NaN, infinities and values beyond the type; each call is followed by the range's bounds, "
                     "validity and four membership answers; in between angles at and beyond their limits, scales for data ranges of any size and place, "
                     "blank values and plotting information")
