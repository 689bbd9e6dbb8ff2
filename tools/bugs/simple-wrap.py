ID = "simple-wrap-graphic"
PROPERTY = "C14"
NEEDS = "a planetographic simple cylindrical map whose latitude range does not reach the north pole"
BREAKS = "the last lines of the map hold latitudes that are not evenly spaced in planetographic latitude"
EDITS = [("lib/marc/SimpleCylindrical.cpp",
          "        if (this->graphic_lat_)\n            lat = this->body_->centric_latitude(lat);",
          "        if (this->graphic_lat_ && lat < this->hi_lat_ - cf)\n            lat = this->body_->centric_latitude(lat);")]
DEMO = '''
import math
text = """MAP: m.fits
BODY: X
EQ_RAD: 1000
POL_RAD: 800
ROTATION: PROGRADE
DATA_TYPE: DOUBLE
TYPE: SIMPLE_C
OPTIONS:
LATITUDE_TYPE: GRAPHIC
LO_LAT: 0
HI_LAT: 60
SAMPLES: 2
LINES: 6
PLANE:
LATITUDE: GRAPHIC
"""
with Scratch() as s:
    h = s.map(text)
    check(h is not None, "run failed")
    v = [h[0].planes[0][2 * k] for k in range(6)]
    g = math.degrees(math.atan(math.tan(math.radians(60)) * (1000 / 800.) ** 2))
    for k in range(6):
        check(near(v[k], (k + .5) * g / 6, 1e-6), "line %d: %r" % (k, v[k]))
'''
