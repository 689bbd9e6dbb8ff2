ID = "maximum-of-zero"
PROPERTY = "C06"
NEEDS = "mapped data none of which is above zero, some of it zero"
BREAKS = "the data maximum is not recorded"
EDITS = [("src/FITS_image_t.cpp", "    if (!std::isnan(max))", "    if (std::isnormal(max))")]
DEMO = '''
with Scratch() as s:
    s.put("i.fits", fits_image(16, 8, 8, [-(i % 5) for i in range(64)]))
    h = s.map(head(dtype="SHORT", extra="DATA_BLANK: 99\\n") + simple(16, 16) + "PLANE:\\n" + image("i.fits", "REMOVE_SKY: NO\\n", centre=(4, 4), scale="KM_PER_PIXEL: 300"))
    check(h is not None, "run failed")
    v = [x for x in h[0].planes[0] if x != 99]
    check(v and max(v) == 0, "nothing mapped")
    check(h[0].kw.get("DATAMIN") == min(v) and h[0].kw.get("DATAMAX") == 0, "recorded: %r %r" % (h[0].kw.get("DATAMIN"), h[0].kw.get("DATAMAX")))
'''
