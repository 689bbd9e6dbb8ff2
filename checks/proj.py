"""Recording maps of each projection for C14 to C17 (spec/ProjTrace.tla)."""
import math
from vlib import fits
from vlib.fits import num
from vlib.marc import Sandbox, body, map_text, PLANE_LATLON

BODIES = [("71492", "66854"), ("60268", "54364"), ("1000", "1000"), ("1", "0.5"), ("3396.19", "3376.2"),
          ("25559", "24973"), ("1e3", "999.9999"), ("0.001", "0.0008"), ("1e9", "3e8")]


def pick_body(rng):
    eq, pol = rng.choice(BODIES)
    if rng.random() < .3:
        eq = "%.6g" % (10 ** rng.uniform(-1, 5))
        pol = repr(float(eq) * rng.choice([1, .999, .95, .9, .6, .3, rng.uniform(.2, 1)]))
    return dict(eq=float(eq), pol=float(pol), pro=rng.random() < .5, t=(eq, pol))


def spec_body(b):
    return dict(eq=num(b["eq"]), pol=num(b["pol"]), pro=b["pro"])


def body_text(b):
    return body(eq=b["t"][0], pol=b["t"][1], prograde=b["pro"])


def lat_arg(rng, b, deg):
    """Spelling of a planetocentric latitude; returns (text, planetocentric value)."""
    d = float("%.7g" % deg)
    r = rng.random()
    if r < .4:
        return "%r" % d, d
    if r < .7:
        return ("%r %s" % (abs(d), "S" if d < 0 else "N")), d
    if r < .8:
        return "%r C" % d, d
    return "%r G" % d, math.degrees(math.atan2(math.sin(math.radians(d)) * b["pol"] ** 2,
                                               math.cos(math.radians(d)) * b["eq"] ** 2))


def circ(x):
    x = math.fmod(x, 360)
    return x + 360 if x < 0 else x


def lon_arg(rng, b, deg):
    """Spelling of a longitude in the body's own sense, 0 to 360."""
    d = float("%.7g" % deg)
    r = rng.random()
    if r < .4:
        return "%r" % d, d
    if r < .6 and d > 0:
        return "%r" % (d - 360), circ(d - 360)
    if r < .8:
        return "%r %s" % (d, "W" if b["pro"] else "E"), d
    e = 360 - d
    return "%r %s" % (e, "E" if b["pro"] else "W"), circ(360 - circ(e))


def size(rng, small=24):
    r = rng.random()
    if r < .15:
        return rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 9])
    if r < .8:
        return rng.randint(2, small), rng.randint(2, small)
    return rng.choice([(1, 40), (40, 1), (37, 5), (5, 37), (64, 32), (33, 33), (72, 36)])


def rows_of(sec, samples, lines_, rng_seed, limit=700):
    """Row events; a big map is sampled (first, last, some inner lines, segments of them)."""
    import random
    rng = random.Random(rng_seed)
    lat, lon = sec
    ev = []
    if samples * lines_ <= limit:
        ks = [(k, 0, samples) for k in range(lines_)]
    else:
        kk = sorted(set([0, lines_ - 1, lines_ // 2] + [rng.randrange(lines_) for _ in range(12)]))
        ks = []
        seg = max(4, limit // (len(kk) * 3))
        for k in kk:
            for s in (0, max(0, samples // 2 - seg // 2), max(0, samples - seg), rng.randrange(samples)):
                ks.append((k, s, min(seg, samples - s)))
    for k, s, n in ks:
        o = k * samples + s
        ev.append(dict(op="row", k=k, i=s, lat=[num(x) for x in lat[o:o + n]], lon=[num(x) for x in lon[o:o + n]]))
    return ev


def record(proj, type_name, b, p, opts, samples, lines_, seed, swap=False, extra_plane=False, grid=False):
    planes = list(PLANE_LATLON)
    il, io = 0, 1
    if swap:
        planes.reverse()
        il, io = 1, 0
    if extra_plane:
        planes.append("LATITUDE: GRAPHIC\n")
    text = map_text("m.fits", body_text(b), type_name, opts, samples, lines_, planes, dtype="DOUBLE",
                    grid="GRID: YES\n" if grid else None)
    pp = dict(p)
    pp.update(samples=samples, lines=lines_)

    def rec(ctx):
        with Sandbox() as s:
            s.put("in.marc", text)
            r = s.marc(ctx.marc, ["in.marc"])
            rows = []
            if r.rc == 0 and r.exists("m.fits"):
                try:
                    h = r.fits("m.fits")[0]
                    pl = h.planes()
                    if h.naxes[:2] == [samples, lines_] and h.bitpix == -64 and len(pl) == len(planes):
                        rows = rows_of((pl[il], pl[io]), samples, lines_, seed)
                except (fits.FitsError, KeyError, IndexError):
                    pass
            return dict(cfg=dict(proj=proj, body=spec_body(b), p=pp),
                        ev=[dict(op="run", ok=r.rc == 0, rows=len(rows))] + rows,
                        _input={"in.marc": text, "stderr": r.err[-600:]}, _kind=proj)
    return rec


def corrupt(s, rng):
    rows = [e for e in s["ev"] if e["op"] == "row"]
    if not rows:
        return None
    e = rng.choice(rows)
    for j in range(len(e["lat"])):
        if e["lat"][j] != "NaN" and abs(float(e["lat"][j])) < 80:
            e["lat"][j] = repr(float(e["lat"][j]) + .001)
            return s
    return None
