"""C06: recorded extrema and warnings about empty planes."""
from vlib.check import Batch
from . import proj, maps, c05


def far_away(rng, b, name):
    """An image of the far side: nothing of the map near (40, 100) is in it."""
    k = rng.randint(4, 9)
    t, im, f = maps.image(rng, b, name, n=k, m=k, near=(-40, 280), feats=[])
    return t, im, f


def scenario(rng, n):
    b = proj.pick_body(rng)
    dtype = rng.choice(maps.TYPES)
    planes, files = [], {}
    count = rng.choice([1, 2, 2, 3, 4, 5]) if rng.random() < .95 else rng.randint(9, 12)
    for j in range(count):
        r = rng.random()
        if r < .35:     # empty: out of sight
            t, im, f = far_away(rng, b, "i%d.fits" % j)
            p = dict(maps.DEF, kind="images", avg="weighted", imgs=[im])
        elif r < .8:
            k = rng.randint(5, 9)
            near = (40, 100)
            vals = maps.mixed_values(rng, dtype, k * k) if rng.random() < .5 else \
                [float(rng.randint(1, 200)) + rng.choice([0, 0, .5]) for _ in range(k * k)]
            if rng.random() < .15:
                vals = [float("nan")] * (k * k)
            if rng.random() < .2:
                vals = [-abs(v) - 1 for v in vals]
            t, im, f = maps.image(rng, b, "i%d.fits" % j, n=k, m=k, values=vals, near=near,
                                  feats=["nan"] if rng.random() < .3 else [])
            p = dict(maps.DEF, kind="images", avg="weighted", imgs=[im])
            if rng.random() < .3:   # empty: out of range
                p["min"] = "1.0E9"
                t = "DATA_MIN: 1e9\n" + t
            elif rng.random() < .4:
                t = maps.data_range(rng, [float(x) for x in im["data"]], p) + t
        else:
            k = rng.choice(["lat", "mu", "mu0", "phase"])
            t, p = maps.virtual(rng, b, k)
            f = {}
            if rng.random() < .5:
                lo, hi = maps.span(k)
                t = maps.plane_range(rng, lo * .9 + hi * .1, hi * .9 + lo * .1, p) + t
        files.update(f)
        planes.append((t, p))
    lo, hi = maps.sig(rng.uniform(10, 40)), maps.sig(rng.uniform(41, 70))
    o = "LO_LAT: %r\nHI_LAT: %r\nLO_LON: %r\nHI_LON: %r\n" % (lo, hi, maps.sig(rng.uniform(70, 95)),
                                                             maps.sig(rng.uniform(100, 130)))
    return maps.record(b, "SIMPLE_C", o, rng.randint(1, 9), rng.randint(1, 9), planes, dtype,
                       blank=c05.blank_for(rng, dtype), files=files, kind="planes-%d" % count,
                       numbered=rng.random() < .5)


def edge(rng, n):
    """Extrema that are easily taken for none: zero, a single value, the ends of the data type, tiny numbers."""
    b = proj.pick_body(rng)
    dtype = rng.choice(maps.TYPES)
    lo, hi = maps.LIMITS.get(dtype, (-1000, 1000))
    if dtype == "LONGLONG":
        lo, hi = -2 ** 53, 2 ** 53
    sets = [[0], [7], [0, 1, 5], [hi], [lo], [lo, hi], [hi - 1, hi], [0, hi]]
    if lo < 0:
        sets += [[-3, -1, 0], [-7], [lo, 0], [-2, -1], [lo, lo + 1], [-1, 0], [-1, 1]]
    if dtype == "FLOAT":
        sets += [[1e-37, 3e-37], [-1e-37, 0], [3e38, -3e38]]
    if dtype == "DOUBLE":
        sets += [[3e-308], [-1e-307, 0], [1e-307, 1], [1.5e308, -1.5e308], [1e-300]]
    vs = rng.choice(sets)
    planes, files = [], {}
    for j in range(rng.choice([1, 1, 2, 3])):
        k = rng.randint(5, 9)
        mine = vs if j == 0 or rng.random() < .4 else [rng.choice(vs)]
        t, im, f = maps.image(rng, b, "i%d.fits" % j, n=k, m=k, values=[float(rng.choice(mine)) for _ in range(k * k)], near=(40, 100))
        planes.append((t, dict(maps.DEF, kind="images", avg="weighted", imgs=[im])))
        files.update(f)
    rng.shuffle(planes)
    o = "LO_LAT: 20\nHI_LAT: 55\nLO_LON: 80\nHI_LON: 120\n"
    return maps.record(b, "SIMPLE_C", o, rng.randint(1, 9), rng.randint(1, 9), planes, dtype,
                       blank=None if dtype in ("FLOAT", "DOUBLE") else 99, files=files, kind="edge", numbered=rng.random() < .5)


def corrupt(s, rng):
    """Misreport an extremum or a warning."""
    e = [x for x in s["ev"] if x["op"] == "plane"]
    if not e:
        return None
    if rng.random() < .5 and s["ev"][-1].get("datamin"):
        k = rng.choice(["datamin", "datamax"])
        s["ev"][-1][k] = repr(float(s["ev"][-1][k]) * 1.01 + 1)
    else:
        x = rng.choice(e)
        x["warned"] = not x["warned"]
    return s


def plan(rng, tier):
    n = 250 if tier == "quick" else 3000
    return dict(batches=[Batch("MapTrace", [("extrema-%d" % i, scenario(rng, i)) for i in range(n)] +
                               [("edge-%d" % i, edge(rng, i)) for i in range(n // 3)], corrupt=corrupt)],
                rule="one to five planes, about half of them without any mapped pixel, all data types; data whose extremum is zero, a single value, an end of the data type or tiny")
