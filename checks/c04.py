"""C04: numbers, angles and distances of the input mean what the manual says."""
import math
from vlib import fits
from vlib.check import Batch
from vlib.fits import num
from vlib.marc import Sandbox, map_text
from . import inputs as I
from .c17 import facing

FUN = ["sin", "cos", "tan", "asin", "acos", "atan", "ln", "exp", "sqrt"]


def numeral(rng):
    r = rng.random()
    if r < .3:
        return str(rng.randint(0, 12))
    if r < .5:
        return "%.3g" % rng.uniform(.01, 20)
    if r < .6:
        return "%d." % rng.randint(1, 9)
    if r < .7:
        return ".%d" % rng.randint(1, 999)
    if r < .78:
        return "0%d" % rng.randint(0, 99)
    m = rng.choice(["%d" % rng.randint(1, 9), "%.2f" % rng.uniform(1, 9), "%d." % rng.randint(1, 9), ".%d" % rng.randint(1, 99)])
    return m + rng.choice("eE") + rng.choice(["", "+", "-"]) + rng.choice(["0", "1", "2", "01", "002"])


def tree(rng, depth):
    """Tokens of an expression, parentheses only here and there."""
    r = rng.random()
    if depth == 0 or r < .12:
        return [numeral(rng)]
    if r < .66:
        t = tree(rng, depth - 1) + [rng.choice("+-*/^-^/*+")] + tree(rng, depth - 1)
    elif r < .80:
        t = [rng.choice("--+")] + tree(rng, depth - 1)
    else:
        return [rng.choice(FUN), "("] + tree(rng, depth - 1) + [")"]
    return ["("] + t + [")"] if rng.random() < .3 else t


def wobbly(rng):
    f = lambda x: x * (1 + rng.choice([-1, 1]) * 2e-15)
    g = {n: (lambda h: lambda x: f(h(x)))(getattr(math, "log" if n == "ln" else n)) for n in FUN}
    g["__builtins__"] = {}
    return g


def value(rng, toks):
    """Value of an expression that double precision pins down, else None.  (Only to choose inputs.)"""
    src = " ".join("**" if t == "^" else (t.lstrip("0") or "0") + ".0" if t.isdigit() else t for t in toks)
    vs = []
    try:
        for _ in range(4):
            v = eval(src, wobbly(rng))
            if isinstance(v, complex):
                return None
            vs.append(float(v))
    except (ValueError, ZeroDivisionError, OverflowError, TypeError):
        return None
    if not all(map(math.isfinite, vs)) or max(map(abs, vs)) > 1e30:
        return None
    if max(vs) - min(vs) > 1e-11 * abs(vs[0]):
        return None
    return vs[0]


def join(rng, toks):
    out = ""
    for j, t in enumerate(toks):
        if j and (rng.random() < .4 or (toks[j - 1][-1].isalnum() or toks[j - 1][-1] == ".") and (t[0].isalnum() or t[0] == ".")):
            out += rng.choice([" ", "  ", "\t"])
        out += t
    return out


def expression(rng, depth=None):
    while True:
        t = tree(rng, depth if depth is not None else rng.choice([1, 2, 3, 3, 4]))
        if len(t) > 40:
            continue
        v = value(rng, t)
        if v is not None and (v == 0 or 1e-30 < abs(v)):
            return join(rng, t), v


def spelled(rng, x):
    """Some expression with (about) the value x."""
    r = rng.random()
    if r < .35:
        return repr(x)
    a = round(rng.uniform(1, 9), 2)
    if r < .5:
        return "%r + %r" % (a, x - a) if x >= a else "%r - %r" % (a, a - x)
    if r < .65:
        return "%r*%r" % (x / a, a) if x >= 0 else "-%r*%r" % (-x / a, a)
    if r < .8:
        return "%r / %r" % (x * a, a) if x >= 0 else "-(%r/%r)" % (-x * a, a)
    if r < .9 and x > 0:
        return "sqrt(%r)" % (x * x)
    return "%r^2 - %r" % (a, a * a - x) if a * a >= x else "%r + %r^2" % (x - a * a, a)


def mark(rng, s):
    return rng.choice([" ", "  ", "\t"]) + (s if rng.random() < .8 else s.lower())


def lat(rng, lo=-89, hi=89):
    """Text of a latitude and its planetocentric or planetographic value."""
    x = round(rng.uniform(lo, hi), rng.choice([0, 1, 3]))
    r = rng.random()
    g = rng.choice(["", "", mark(rng, "G"), mark(rng, "C")])
    if r < .4:
        return spelled(rng, x) + g, x
    return spelled(rng, abs(x)) + mark(rng, "S" if x < 0 else "N") + g, x


def lon(rng):
    x = round(rng.uniform(-359, 359), rng.choice([0, 1, 3]))
    t = spelled(rng, x)
    if rng.random() < .1:
        x = rng.choice([0, 360, -360, 180, -180])
        t = str(x)
    m = rng.choice(["", mark(rng, "E"), mark(rng, "W")])
    return t + m, x, m.strip().upper()


def pa(rng):
    x = round(rng.uniform(-359, 359), rng.choice([0, 1]))
    return spelled(rng, x) + rng.choice(["", mark(rng, "CW"), mark(rng, "CCW")])


def shape(rng, size=None):
    eq = size or rng.choice([71492, 1000, 60268.5, 3396.19])
    f = rng.choice([0, .05, .1, .3, .0649, .5])
    pol = eq * (1 - f)
    p = rng.choice([("EQ_RAD", "POL_RAD"), ("EQ_RAD", "FLATTENING"), ("POL_RAD", "FLATTENING")])
    p = list(p) if rng.random() < .5 else [p[1], p[0]]
    v = dict(EQ_RAD=spelled(rng, float(eq)), POL_RAD=spelled(rng, float(pol)) if f else repr(float(eq) * .97), FLATTENING=spelled(rng, f) if f else "0")
    if f and "POL_RAD" in p and "EQ_RAD" in p and f < .01:
        v["POL_RAD"] = repr(pol)
    return [(k, v[k]) for k in p], eq, (pol if f else (eq * .97 if "POL_RAD" in p else eq))


def record(kind, args, opts, planes, pro, samples, lines_, ptype, extra=None, north=True, data_extra="", dtype="DOUBLE"):
    body = "BODY: Testbody\n" + "".join("%s: %s\n" % (k, v) for k, v in args if k in ("EQ_RAD", "POL_RAD", "FLATTENING")) + \
        "ROTATION: %s\n" % ("PROGRADE" if pro else "RETROGRADE")
    text = map_text("m.fits", body, ptype, opts, samples, lines_, planes, dtype=dtype, data_extra=data_extra)
    cfg = dict(kind=kind, pro=pro, samples=samples, lines=lines_, north=north, args={k: I.tokens(v) for k, v in args})

    def rec(ctx):
        with Sandbox() as s:
            s.put("in", text)
            r = s.marc(ctx.marc, ["in"])
            ev = []
            try:
                h = r.fits("m.fits")[0] if r.rc == 0 and r.exists("m.fits") else None
                if kind == "number":
                    ok = h is not None
                    ev = [dict(op="number", ok=ok, got=num(float(h.kw.get("BZERO", 0))) if ok else "NaN")]
                elif h is None or [h.naxes[0], h.naxes[1]] != [samples, lines_]:
                    ev = [dict(op="made", ok=False)]
                else:
                    pl = h.planes()
                    ev = [dict(op="made", ok=True)]
                    for k in range(lines_):
                        o = slice(k * samples, (k + 1) * samples)
                        ev.append(dict(op="row", k=k, i=0, lat=[num(x) for x in pl[0][o]], lon=[num(x) for x in pl[1][o]],
                                       val=[num(x) for x in (pl[2] if len(pl) > 2 else pl[0])[o]]))
            except (fits.FitsError, KeyError, IndexError, ValueError):
                ev = [dict(op="made", ok=False)]
            return dict(cfg=cfg, ev=ev, _kind=kind, _input=dict(text=text, status=r.rc, out=r.out[-300:], err=r.err[-300:]))
    return rec


LATLON = ["LATITUDE: CENTRIC\n", "LONGITUDE\n"]
lines = lambda xs: "".join("%s: %s\n" % x for x in xs)


def flip(rng, xs):
    xs = list(xs)
    if rng.random() < .5:
        xs.reverse()
    return xs


def number(rng, n):
    if rng.random() < .06:
        t = rng.choice([x for x in I.EXPR_BAD if x])
    else:
        t, _ = expression(rng)
    sh = [("EQ_RAD", "71492"), ("POL_RAD", "66854")]
    return record("number", sh + [("DATA_OFFSET", t)], "", LATLON[:1], True, 2, 2, "SIMPLE_C", data_extra="DATA_OFFSET: %s\n" % t, dtype="FLOAT")


def simple(rng, n):
    pro = rng.random() < .5
    sh, eq, pol = shape(rng)
    while True:
        a, b = lat(rng, -89, 60), lat(rng, -60, 89)
        if min(b[1], centric(eq, pol, b[1])) - max(a[1], centric(eq, pol, a[1])) > 5:
            break
    while True:
        c, d = lon(rng), lon(rng)
        own = "W" if pro else "E"
        v = [(x[1] if x[2] in ("", own) else -x[1]) % 360 for x in (c, d)]
        gap = abs(v[0] - v[1])
        if 1 < gap < 359 and all(1 < x < 359 for x in v) or rng.random() < .02:
            break
    args = []
    la = flip(rng, [("LO_LAT", a[0]), ("HI_LAT", b[0])])
    lo = flip(rng, [("LO_LON", c[0]), ("HI_LON", d[0])])
    if not (1 < gap < 359 and all(1 < x < 359 for x in v)):
        lo = []
    args = (la + lo) if rng.random() < .5 else (lo + la)
    return record("simple", sh + args, lines(args), LATLON, pro, rng.randint(1, 6), rng.randint(1, 6), "SIMPLE_C")


def polar(rng, n):
    sh, eq, pol = shape(rng)
    north = rng.random() < .5
    t, _ = lat(rng, -40, 80) if north else lat(rng, -80, 40)
    args = [("MAX_LAT", t)]
    return record("polar", sh + args, "POLE: %s\n" % ("N" if north else "S") + lines(args), LATLON, rng.random() < .5, rng.randint(2, 7),
                  rng.randint(2, 7), "P_STEREO", north=north)


def ortho(rng, n):
    sh, eq, pol = shape(rng)
    pro = rng.random() < .5
    la, lo = lat(rng, -85, 85), lon(rng)
    args = flip(rng, [("SUB_OBSERV_LAT", la[0]), ("SUB_OBSERV_LON", lo[0])])
    s, l_ = rng.randint(3, 9), rng.randint(3, 9)
    r = rng.random()
    if r < .85:
        args.append(("POSITION_ANGLE", pa(rng)))
    if r < .6:
        args.append(("KM_PER_PIXEL", spelled(rng, round(2 * eq / min(s, l_) * rng.uniform(.3, 1.5), 2))))
    if r < .2:
        args += flip(rng, [("SAMPLE_CENTER", spelled(rng, round(s * rng.uniform(.2, .8), 2))), ("LINE_CENTER", spelled(rng, round(l_ * rng.uniform(.2, .8), 2)))])
    elif r < .4:
        # a point well on the near side, whatever the latitudes are marked as
        own = "W" if pro else "E"
        l0 = lo[1] if lo[2] in ("", own) else -lo[1]
        for _ in range(300):
            a, o = lat(rng, -80, 80), lon(rng)
            l1 = o[1] if o[2] in ("", own) else -o[1]
            b = dict(eq=eq, pol=pol)
            if min(facing(b, x, l0, y, l1) for x in (la[1], la[1] * .6, centric(eq, pol, la[1])) for y in (a[1], centric(eq, pol, a[1]))) > .15:
                args += flip(rng, [("LAT_AT_CENTER", a[0]), ("LON_AT_CENTER", o[0])])
                break
    return record("ortho", sh + args, lines(args), LATLON, pro, s, l_, "ORTHO")


def centric(eq, pol, g):
    return math.degrees(math.atan2(math.sin(math.radians(g)) * pol ** 2, math.cos(math.radians(g)) * eq ** 2))


def cosines(rng, n):
    kind = ["mu", "mu0", "phase"][n % 3]
    au = rng.random() < .4
    sh, eq, pol = shape(rng, 1e8 if au else None)
    r = eq * rng.uniform(1.3, 6)
    obs = flip(rng, [("SUB_OBSERV_LAT", lat(rng)[0]), ("SUB_OBSERV_LON", lon(rng)[0])])
    dist = [("RANGE", spelled(rng, float("%.6g" % (r / 149597870.7))) + mark(rng, "AU")) if au else
            ("RANGE", spelled(rng, float("%.6g" % r)) + rng.choice(["", mark(rng, "KM")]))]
    sun = flip(rng, [("SUB_SOLAR_LAT", lat(rng)[0]), ("SUB_SOLAR_LON", lon(rng)[0])])
    args = {"mu": obs + dist, "mu0": sun, "phase": obs + dist + sun}[kind]
    if kind == "mu" and rng.random() < .3:
        args = args + sun
    if kind == "mu0" and rng.random() < .3:
        args = obs + dist + sun
    pl = "%s:\n" % kind.upper() + lines(args)
    return record(kind, sh + args, "", LATLON + [pl], rng.random() < .5, rng.randint(2, 6), rng.randint(2, 6), rng.choice(["SIMPLE_C", "MERCATOR"]))


def corrupt(s, rng):
    for e in s["ev"]:
        if e["op"] == "number" and e["ok"] and float(e["got"]):
            e["got"] = num(float(e["got"]) * 1.0001)
            return s
        if e["op"] == "row" and s["cfg"]["kind"] in ("mu", "mu0", "phase"):
            e["val"][0] = num(float(e["val"][0]) + .001)
            return s
        if e["op"] == "row" and s["cfg"]["kind"] == "simple":
            e["lat"][0] = num(float(e["lat"][0]) + .001)
            return s
    return None


def plan(rng, tier):
    n = 1 if tier == "quick" else 12
    recs = []
    for f, c in ((number, 1500), (simple, 400), (polar, 150), (ortho, 300), (cosines, 450)):
        recs += [("%s-%d" % (f.__name__, i), f(rng, i)) for i in range(c * n)]
    return dict(batches=[Batch("ValueTrace", recs, corrupt=corrupt)],
                rule="random expressions over all operators and functions with few parentheses; latitudes, longitudes, position angles, "
                     "distances and shapes spelled in all documented ways, looked at through projections and computed planes")
