"""C10: planes made of several images."""
from vlib.check import Batch
from . import proj, maps

FEATS = ["zeros", "gll", "undef", "cube", "nan", "nibble", "sky", "inv", "offset", "emi", "term", "flat", "oa", "latlon"]


def scenario(rng, n):
    b = proj.pick_body(rng)
    avg = rng.choice([None, "NONE", "UNWEIGHTED", "WEIGHTED"])
    count = rng.choice([2, 2, 3, 3, 4, 5]) if rng.random() < .95 else rng.randint(6, 11)
    feats = [f for f in FEATS if rng.random() < (.5 if f in ("zeros", "nan", "sky", "nibble") else .2)]
    if n % 6 == 0:       # zero is a datum like any other
        avg, feats = rng.choice([None, "NONE", "UNWEIGHTED", "UNWEIGHTED", "WEIGHTED"]), ["zeros!"]
    t, p, files = maps.images(rng, b, count, feats, (avg or "WEIGHTED").lower())
    planes = [(t, p)]
    if rng.random() < .25:
        t2, p2, f2 = maps.images(rng, b, rng.choice([1, 2]), feats, (avg or "WEIGHTED").lower())
        planes.append((t2, p2))
        files.update(f2)
    dtype = rng.choice(["DOUBLE", "DOUBLE", "DOUBLE", "FLOAT", "LONG"])
    tp, o, s, l_ = maps.projection(rng, b, avg=avg, near=maps.nearby(p["imgs"][0]))
    return maps.record(b, tp, o, s + 2, l_ + 2, planes, dtype, files=files, kind="mosaic-%s" % (avg or "default"))


def plan(rng, tier):
    n = 220 if tier == "quick" else 2500
    return dict(batches=[Batch("MapTrace", [("mosaic-%d" % i, scenario(rng, i)) for i in range(n)],
                               corrupt=maps.corrupt)],
                rule="two to five overlapping images with holes, nibbled edges, removed sky; all averaging kinds")
