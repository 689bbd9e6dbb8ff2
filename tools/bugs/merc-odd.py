ID = "mercator-oblate-south"
PROPERTY = "C15"
NEEDS = "an oblate body; only southern latitudes are affected"
BREAKS = "southern lines use the isometric latitude of the wrong hemisphere's eccentricity term, so spacing is not conformal there"
EDITS = [("lib/marc/Mercator.cpp",
          "        double const t = body.first_eccentricity() * std::sin(latg);",
          "        double const t = body.first_eccentricity() * std::max(std::sin(latg), -0.9);")]
DEMO = '''
import math
text = """MAP: m.fits
BODY: X
EQ_RAD: 1000
POL_RAD: 800
ROTATION: PROGRADE
DATA_TYPE: DOUBLE
TYPE: MERCATOR
SAMPLES: 8
LINES: 8
PLANE:
LATITUDE: CENTRIC
"""
with Scratch() as s:
    h = s.map(text)
    check(h is not None, "run failed")
    v = [h[0].planes[0][8 * k] for k in range(8)]
    for k in range(8):
        check(near(v[k], -v[7 - k], 1e-9), "not symmetric about the equator: %r %r" % (v[k], v[7 - k]))
'''
