"""C11: inversion, calibration, trimming, interpolation of one image."""
from vlib.check import Batch
from vlib import fits
from . import proj, maps

FEATS = ["gll", "undef", "cube", "nan", "nibble", "sky", "inv", "flat", "interp", "offset", "latlon"]


def scenario(rng, n):
    b = proj.pick_body(rng)
    feats = [f for f in FEATS if rng.random() < .55]
    k, k2 = maps.some_size(rng, 2), maps.some_size(rng, 2)
    t, im, files = maps.image(rng, b, "i.fits", n=k, m=k2, feats=feats)
    p = dict(maps.DEF, kind="images", avg="weighted", imgs=[im])
    tp, o, s, l_ = maps.projection(rng, b, near=maps.nearby(im))
    dtype = rng.choice(["DOUBLE", "DOUBLE", "FLOAT", "LONG", "SHORT"])
    return maps.record(b, tp, o, s + 3, l_ + 3, [(t, p)], dtype, files=files, kind="image")


def bad_flat(rng, n):
    b = proj.pick_body(rng)
    k, k2 = rng.randint(3, 9), rng.randint(3, 9)
    while True:
        t, im, files = maps.image(rng, b, "i.fits", n=k, m=k2, feats=["flat"])
        if im["flat"]:
            break
    w, h = rng.choice([(k + 1, k2), (k, k2 + 1), (k - 1, k2), (k, k2 - 1)] + ([(k2, k)] if k != k2 else []) +
                      ([(k * k2, 1)] if k2 > 1 else []))
    files["i.fits.flat"] = fits.make(-32, w, h, [1.0] * (w * h))
    p = dict(maps.DEF, kind="images", avg="weighted", imgs=[im])
    return maps.record(b, "SIMPLE_C", "", 4, 4, [(t, p)], "DOUBLE", files=files, refuse=True, kind="flat-size")


def plan(rng, tier):
    n = 260 if tier == "quick" else 3000
    rec = [("image-%d" % i, scenario(rng, i)) for i in range(n)]
    rec += [("flat-%d" % i, bad_flat(rng, i)) for i in range(n // 10)]
    return dict(batches=[Batch("MapTrace", rec, corrupt=maps.corrupt)],
                rule="random image sizes and combinations of inversion, flat field, nibbling, sky removal, NaN, interpolation")
