"""C07: computed planes of integer maps decode to the physical value."""
from vlib.check import Batch
from . import proj, maps, c05


def scenario(rng, n):
    b = proj.pick_body(rng)
    dtype = rng.choice(["BYTE", "SHORT", "LONG", "LONGLONG"])
    kinds = ["lat", "lon", "mu", "mu0", "phase"]
    if dtype == "BYTE" and rng.random() < .8:
        kinds.remove("lon")     # else: refused
    planes = []
    for j in range(rng.choice([1, 1, 1, 2, 3, 5, 12])):
        k = rng.choice(kinds)
        t, p = maps.virtual(rng, b, k)
        if rng.random() < .25:
            lo, hi = maps.span(k)
            t = maps.plane_range(rng, lo * .9 + hi * .1, hi * .9 + lo * .1, p) + t
        planes.append((t, p))
    files = {}
    if len(planes) > 1 and rng.random() < .3:      # a plane of images among them
        t, im, f = maps.image(rng, b, "i.fits", n=6, m=6, values=[float(j) for j in range(36)])
        files.update(f)
        planes.insert(rng.randrange(len(planes) + 1),
                      (t, dict(maps.DEF, kind="images", avg="weighted", imgs=[im])))
    tp, o, s, l_ = maps.projection(rng, b)
    return maps.record(b, tp, o, s, l_, planes, dtype, blank=c05.blank_for(rng, dtype), files=files,
                       kind="%s-%s" % (dtype, "single" if len(planes) == 1 else "multi"), numbered=rng.random() < .5)


def plan(rng, tier):
    n = 240 if tier == "quick" else 3000
    return dict(batches=[Batch("MapTrace", [("decode-%d" % i, scenario(rng, i)) for i in range(n)],
                               corrupt=maps.corrupt)],
                rule="integer data types, one to twelve computed planes, with and without images between them")
