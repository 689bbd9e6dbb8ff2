ID = "lens-of-half-size-frames"
PROPERTY = "C12"
NEEDS = "GEOM_CORRECT with a photograph of exactly 400 samples (summation mode)"
BREAKS = "the lens distortion is applied about the wrong centre"
EDITS = [("lib/marc/GLLGeometricCorrection.cpp", "samples <= MaRC::GLL::OA_SAMPLE", "samples < MaRC::GLL::OA_SAMPLE")]
DEMO = '''
N = 400
D = 0.00000000658
text = head(eq=18000, pol=18000) + simple(1, 1, "LO_LAT: 49\\nHI_LAT: 51\\nLO_LON: 359\\nHI_LON: 1\\n") + "PLANE:\\n" + image(
    "p.fits", "INTERPOLATE: YES\\n", centre=(200, 200), rng=10000000, after="GEOM_CORRECT: YES\\n")
import math
with Scratch() as s:
    s.put("p.fits", fits_image(-32, N, N, [float(k) for k in range(N) for _ in range(N)]))
    h = s.map(text)
    check(h is not None, "run failed")
    v = h[0].planes[0][0]
    # latitude 50 at the centre of the disc: 18000 sin 50 / 100 pixels above it, slightly more in perspective
    y = 18000 * math.sin(math.radians(50)) / (1e7 - 18000 * math.cos(math.radians(50))) * (1e7 / 100)
    full = -2 * y
    want = (full * (1 + D * full * full) + 400) / 2      # interpolation takes data to lie at whole numbers
    check(near(v, want, .02), "line %r, expected %r" % (v, want))
'''
