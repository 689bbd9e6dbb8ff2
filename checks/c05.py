"""C05: every pixel is the datum in range, converted, or blank."""
from vlib.check import Batch
from . import proj, maps


def blank_for(rng, dtype):
    if dtype not in maps.LIMITS or rng.random() < .35:
        return None
    lo, hi = maps.LIMITS[dtype]
    return rng.choice([0, 7, 12, hi, lo, hi - 1, 100]) if dtype != "LONGLONG" else rng.choice([0, 7, 12, -5, 2 ** 40])


def image_map(rng, n):
    b = proj.pick_body(rng)
    dtype = rng.choice(maps.TYPES)
    planes, files, near = [], {}, None
    for j in range(rng.choice([1, 1, 2, 3])):
        k = rng.randint(5, 12)
        values = maps.mixed_values(rng, dtype, k * k)
        feats = ["nan"] if rng.random() < .4 else ["undef"]
        if feats == ["undef"] and rng.random() < .5:
            values = [float(rng.randint(0, 40)) for _ in values]
        if rng.random() < .2:
            feats += ["offset", "emi", "nibble"]
        if rng.random() < .4:
            feats = feats + ["limits"]
        t, im, f = maps.image(rng, b, "i%d.fits" % j, n=k, m=k, values=values, near=near, feats=feats)
        near = near or maps.nearby(im)
        files.update(f)
        p = dict(maps.DEF, kind="images", avg="weighted", imgs=[im])
        if rng.random() < .6:
            t = maps.data_range(rng, [float(x) for x in im["data"]], p) + t
        planes.append((t, p))
    tp, o, s, l_ = maps.projection(rng, b, near=near)
    return maps.record(b, tp, o, s + 2, l_ + 2, planes, dtype, blank=blank_for(rng, dtype), files=files,
                       kind="images-" + dtype, numbered=rng.random() < .4)


def computed_map(rng, n):
    b = proj.pick_body(rng)
    dtype = rng.choice(["SHORT", "LONG", "LONGLONG", "FLOAT", "DOUBLE", "BYTE"])
    kinds = ["lat", "mu", "mu0", "phase"] + ([] if dtype == "BYTE" else ["lon"])
    planes = []
    for j in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(kinds)
        t, p = maps.virtual(rng, b, k)
        if rng.random() < .75:
            lo, hi = maps.span(k)
            t = maps.plane_range(rng, lo * .9 + hi * .1, hi * .9 + lo * .1, p) + t
        planes.append((t, p))
    tp, o, s, l_ = maps.projection(rng, b)
    return maps.record(b, tp, o, s, l_, planes, dtype, blank=blank_for(rng, dtype), kind="computed-" + dtype,
                       numbered=rng.random() < .4)


def plan(rng, tier):
    n = 200 if tier == "quick" else 2500
    return dict(batches=[Batch("MapTrace", [("image-%d" % i, image_map(rng, i)) for i in range(n)],
                               corrupt=maps.corrupt),
                         Batch("MapTrace", [("computed-%d" % i, computed_map(rng, i)) for i in range(n // 2)],
                               corrupt=maps.corrupt)],
                rule="random data types, blanks, ranges at data values, values at the limits of the data type")
