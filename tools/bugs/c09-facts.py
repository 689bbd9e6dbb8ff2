ID = "origin-not-passed-on"
PROPERTY = "C09"
NEEDS = "a photograph that names its origin and an input file that does not"
BREAKS = "the origin that only the photograph supplies is lost"
EDITS = [("src/PhotoImageFactory.cpp", "    MARC_SET_PARAM(origin);\n", "")]
DEMO = '''
N = 20
text = head(dtype="SHORT") + simple(4, 4) + "PLANE:\\nLONGITUDE\\nPLANE:\\n" + image("p.fits", centre=(10, 10), scale="KM_PER_PIXEL: 120")
with Scratch() as s:
    s.put("p.fits", fits_image(16, N, N, [7] * (N * N), ["ORIGIN  = 'Here    '", "AUTHOR  = 'Nobody  '"]))
    h = s.map(text)
    check(h is not None, "run failed")
    check(h[0].kw.get("ORIGIN") == "Here" and h[0].kw.get("AUTHOR") == "Nobody", "facts of the photograph are lost: %r" % h[0].kw)
'''
