"""C12: where images show the points of the body."""
from vlib.check import Batch
from . import proj, maps

FEATS = ["gll", "oa", "latlon", "offset", "emi", "term"]


def scenario(rng, n):
    b = proj.pick_body(rng)
    # large images with distinct values: the value tells the position
    k = rng.choice([12, 25, 40])
    k2 = rng.choice([k, k, rng.randint(8, 40)])
    tx, im, f = maps.image(rng, b, "i.fits", n=k, m=k2, values=[float(j) for j in range(k * k2)],
                           feats=[x for x in FEATS if rng.random() < .7])
    t, o, s, l_ = maps.projection(rng, b, full=rng.random() < .2, near=maps.nearby(im))
    p = dict(maps.DEF, kind="images", avg="weighted", imgs=[im])
    return maps.record(b, t, o, s + 4, l_ + 4, [(tx, p)], rng.choice(["DOUBLE", "DOUBLE", "LONG", "FLOAT"]), files=f,
                       kind="image-%s-%s" % (im["centre"], im["scale"]), head="")


def large(rng, n):
    """As wide as the detectors the lens correction is about; above and below 400 samples it differs."""
    b = proj.pick_body(rng)
    k, k2 = rng.choice([399, 400, 401, 401, 402, 480]), rng.choice([30, 60])
    if n % 8 == 0:
        k, k2 = 410, 410
    tx, im, f = maps.image(rng, b, "i.fits", n=k, m=k2, values=[float(j) for j in range(k * k2)], span=k,
                           feats=["gll"] + [x for x in FEATS if rng.random() < .4])
    t, o, s, l_ = maps.projection(rng, b, near=maps.nearby(im))
    p = dict(maps.DEF, kind="images", avg="weighted", imgs=[im])
    return maps.record(b, t, o, s + 8, l_ + 8, [(tx, p)], "DOUBLE", files=f, kind="large-%s" % im["gll"], head="")


def close(rng, n):
    """A close observer who looks at the horizon: parts of the body in sight lie behind the camera."""
    b = proj.pick_body(rng)
    k, k2 = rng.randint(3, 12), rng.randint(3, 12)
    tx, im, f = maps.image(rng, b, "i.fits", n=k, m=k2, values=[float(j) for j in range(k * k2)],
                           feats=["wide"] + [x for x in ("oa", "gll") if rng.random() < .3])
    t, o, s, l_ = maps.projection(rng, b, near=maps.nearby(im))
    p = dict(maps.DEF, kind="images", avg="weighted", imgs=[im])
    return maps.record(b, t, o, s + 6, l_ + 6, [(tx, p)], "DOUBLE", files=f, kind="close", head="")


def plan(rng, tier):
    n = 300 if tier == "quick" else 3000
    return dict(batches=[Batch("MapTrace", [("view-%d" % i, scenario(rng, i)) for i in range(n)],
                               corrupt=maps.corrupt),
                         Batch("MapTrace", [("large-%d" % i, large(rng, i)) for i in range(n // 12)] +
                               [("close-%d" % i, close(rng, i)) for i in range(n // 10)],
                               corrupt=maps.corrupt)],
                rule="random bodies, projections, observers, scales, optical axes, limits; images with distinct pixels")
