ID = "ortho-angle-carries-over"
PROPERTY = "C02"
NEEDS = "two orthographic maps in a run, the first with a position angle, the second without one"
BREAKS = "the second map is turned by the position angle of the first"
EDITS = [("src/parse.yy",
          "            km_per_pixel_val = -1;\n            position_angle_val = 0;\n",
          "            km_per_pixel_val = -1;\n")]
DEMO = '''
def m(name, opts):
    return head(name) + "TYPE: ORTHO\\nOPTIONS:\\n" + opts + "SAMPLES: 6\\nLINES: 6\\nPLANE:\\nLATITUDE: CENTRIC\\n"
a, b = m("a.fits", "POSITION_ANGLE: 40\\n"), m("b.fits", "SUB_OBSERV_LAT: 10\\nSUB_OBSERV_LON: 20\\n")
with Scratch() as s:
    s.put("b.marc", b)
    s.put("ab.marc", a + b)
    check(s.run("b.marc").returncode == 0, "run failed")
    one = s.fits("b.fits")[0].planes
    check(s.run("ab.marc").returncode == 0, "run failed")
    two = s.fits("b.fits")[0].planes
    check(repr(one) == repr(two), "the map depends on the one before it")
'''
