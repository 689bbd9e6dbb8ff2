"""C15: Mercator maps."""
from vlib.check import Batch
from . import proj


def scenario(rng, n):
    b = proj.pick_body(rng)
    opts = rng.choice(["", "", "AVERAGING: NONE\n"])
    samples, lines_ = proj.size(rng)
    if n % 10 == 7:
        samples, lines_ = rng.choice([(720, 360), (1030, 17), (13, 1200), (300, 300), (2, 700), (1, 60), (4, 90)])
    return proj.record("mercator", "MERCATOR", b, {}, opts, samples, lines_, n, swap=rng.random() < .3,
                       extra_plane=rng.random() < .2, grid=rng.random() < .2)


def plan(rng, tier):
    n = 300 if tier == "quick" else 3000
    recs = [("mercator-%d" % i, scenario(rng, i)) for i in range(n)]
    return dict(batches=[Batch("ProjTrace", recs, corrupt=proj.corrupt)], rule="random maps")
