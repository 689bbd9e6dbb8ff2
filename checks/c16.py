"""C16: polar stereographic maps."""
from vlib.check import Batch
from vlib.fits import num
from . import proj


def scenario(rng, n):
    b = proj.pick_body(rng)
    north, ml, opts = True, 0.0, ""
    if rng.random() < .85:
        north = rng.random() < .5
        opts = "POLE: %s\n" % ("N" if north else "S")
        if rng.random() < .7:
            v = rng.choice([0, 10, 30, 45.5, 60, 80, 89, -5, -20, -60, rng.uniform(-80, 89)])
            t, ml = proj.lat_arg(rng, b, v if north else -v)
            opts += "MAX_LAT: %s\n" % t
    samples, lines_ = proj.size(rng, 20)
    if n % 40 == 7:
        samples, lines_ = rng.choice([(301, 200), (530, 17), (13, 600), (128, 128)])
    return proj.record("polar", "P_STEREO", b, dict(north=north, maxLat=num(ml)), opts, samples, lines_, n,
                       swap=rng.random() < .3, extra_plane=rng.random() < .2, grid=rng.random() < .2)


def plan(rng, tier):
    n = 160 if tier == "quick" else 2500
    recs = [("polar-%d" % i, scenario(rng, i)) for i in range(n)]
    return dict(batches=[Batch("ProjTrace", recs, corrupt=proj.corrupt)], rule="random maps")
