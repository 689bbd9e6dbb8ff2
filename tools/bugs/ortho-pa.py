ID = "ortho-latlon-centre-pa"
PROPERTY = "C17"
NEEDS = "an orthographic map with a given centre latitude/longitude, a position angle and a sub-observer latitude off the equator"
BREAKS = "the map centre does not show the requested point"
EDITS = [("lib/marc/Orthographic.cpp",
          "            - pos[1] * std::sin(-this->sub_observ_lat_) * std::cos(this->PA_)",
          "            - pos[1] * std::sin(-this->sub_observ_lat_) * std::abs(std::cos(this->PA_))")]
DEMO = '''
text = """MAP: m.fits
BODY: X
EQ_RAD: 1000
POL_RAD: 1000
ROTATION: PROGRADE
DATA_TYPE: DOUBLE
TYPE: ORTHO
OPTIONS:
SUB_OBSERV_LAT: 30
SUB_OBSERV_LON: 40
POSITION_ANGLE: 170
KM_PER_PIXEL: 50
LAT_AT_CENTER: 10
LON_AT_CENTER: 30
SAMPLES: 11
LINES: 11
PLANE:
LATITUDE: CENTRIC
PLANE:
LONGITUDE
"""
with Scratch() as s:
    h = s.map(text)
    check(h is not None, "run failed")
    la, lo = h[0].planes[0][60], h[0].planes[1][60]
    check(near(la, 10, 1e-6) and near(lo, 30, 1e-6), "centre shows %r %r" % (la, lo))
'''
