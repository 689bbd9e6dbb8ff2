ID = "polar-south-retro-narrow"
PROPERTY = "C16"
NEEDS = "a south polar map that is taller than wide"
BREAKS = "the maximum latitude lies on the edge of the wrong dimension"
EDITS = [("lib/marc/PolarStereographic.cpp",
          "    auto const min_dim = std::min(samples, lines);",
          "    auto const min_dim =\n        this->north_pole_ ? std::min(samples, lines) : lines;")]
DEMO = '''
text = """MAP: m.fits
BODY: X
EQ_RAD: 1000
POL_RAD: 900
ROTATION: RETROGRADE
DATA_TYPE: DOUBLE
TYPE: P_STEREO
OPTIONS:
POLE: S
MAX_LAT: 30 S
SAMPLES: 101
LINES: 201
PLANE:
LATITUDE: CENTRIC
"""
with Scratch() as s:
    h = s.map(text)
    check(h is not None, "run failed")
    v = h[0].planes[0][100 * 101 + 0]
    check(near(v, -30, 1), "edge latitude %r" % v)
'''
