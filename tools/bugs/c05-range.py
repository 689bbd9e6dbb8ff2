ID = "minimum-below-the-type"
PROPERTY = "C05"
NEEDS = "an unsigned or narrow integer map, a DATA_MIN below what the type can hold, and data below what the type can hold"
BREAKS = "a datum that the map cannot hold wraps around instead of being left blank"
EDITS = [("lib/marc/MapFactory_t.cpp", "    ex.minimum(minimum ? std::max(*minimum, type_min) : type_min);",
          "    ex.minimum(minimum ? std::min(*minimum, type_min) : type_min);")]
DEMO = '''
N = 40
text = head(dtype="BYTE", extra="DATA_BLANK: 255\\n") + simple(8, 8) + "PLANE:\\nDATA_MIN: -50\\n" + image("p.fits", centre=(20, 20), scale="KM_PER_PIXEL: 60")
with Scratch() as s:
    s.put("p.fits", fits_image(16, N, N, [-3] * (N * N)))
    h = s.map(text)
    check(h is not None, "run failed")
    check(all(v == 255 for v in h[0].planes[0]), "values from nowhere: %r" % set(h[0].planes[0]))
'''
