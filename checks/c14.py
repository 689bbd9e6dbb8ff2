"""C14: simple cylindrical maps."""
from vlib.check import Batch
from vlib.fits import num
from . import proj


def scenario(rng, n):
    b = proj.pick_body(rng)
    opts = ""
    graphic = False
    r = rng.random()
    if r < .3:
        opts += rng.choice(["LATITUDE_TYPE: GRAPHIC\n", "GRAPHIC\n"])
        graphic = True
    elif r < .5:
        opts += rng.choice(["LATITUDE_TYPE: CENTRIC\n", "CENTRIC\n"])
    lo, hi, lol, hil = -90.0, 90.0, 0.0, 360.0
    la = lonr = ""
    if rng.random() < .7:
        a, c = sorted(rng.choice([-90, -60, -45.5, -30, -1, 0, 10, 12.25, 33, 60, 89, 90, rng.uniform(-89, 89)])
                      for _ in range(2))
        if a == c:
            a, c = -90, c if c > -90 else 5
        (ta, lo), (tc, hi) = proj.lat_arg(rng, b, a), proj.lat_arg(rng, b, c)
        if lo >= hi:
            lo, hi, la = -90.0, 90.0, ""
        elif rng.random() < .5:
            la = "LO_LAT: %s\nHI_LAT: %s\n" % (ta, tc)
        else:
            la = "HI_LAT: %s\nLO_LAT: %s\n" % (tc, ta)
    if rng.random() < .7:
        c = [0, 10, 45, 90, 180, 270, 350, 360, 359.5, .25, rng.uniform(0, 360), rng.uniform(0, 360)]
        a, d = rng.choice(c), rng.choice(c)
        if rng.random() < .25:
            d = a
        if rng.random() < .08:
            a, d = 360, 0
        (ta, lol), (td, hil) = proj.lon_arg(rng, b, a), proj.lon_arg(rng, b, d)
        if 0 < abs(lol - hil) < 1e-6:
            lol = hil = 20.0
            ta = td = "20"
        if rng.random() < .5:
            lonr = "LO_LON: %s\nHI_LON: %s\n" % (ta, td)
        else:
            lonr = "HI_LON: %s\nLO_LON: %s\n" % (td, ta)
    opts += la + lonr if rng.random() < .6 else lonr + la
    p = dict(loLat=num(lo), hiLat=num(hi), loLon=num(lol), hiLon=num(hil), graphic=graphic)
    samples, lines_ = (rng.choice([(720, 360), (1030, 17), (13, 1200), (300, 300)]) if n % 40 == 7
                       else proj.size(rng))
    return proj.record("simple", "SIMPLE_C", b, p, opts, samples, lines_, n, swap=rng.random() < .3,
                       extra_plane=rng.random() < .2, grid=rng.random() < .2)


def plan(rng, tier):
    n = 160 if tier == "quick" else 2500
    recs = [("simple-%d" % i, scenario(rng, i)) for i in range(n)]
    return dict(batches=[Batch("ProjTrace", recs, corrupt=proj.corrupt)], rule="random maps")
