ID = "zero-point-within-one-step"
PROPERTY = "C07"
NEEDS = "a computed plane with a fine scale and a zero point (cosines in BYTE, longitudes in LONG maps)"
BREAKS = "the zero point is recorded as zero"
EDITS = [("src/MapCommand.cpp", "    if (MaRC::almost_zero(offset, epsilons))", "    if (std::abs(offset) * scale < epsilons)")]
DEMO = '''
with Scratch() as s:
    h = s.map(head(dtype="LONG", extra="DATA_BLANK: -2147483648\\n") + simple(16, 4) + "PLANE:\\nLONGITUDE\\n")
    check(h is not None, "run failed")
    h = h[0]
    got = [x * h.kw["BSCALE"] + h.kw.get("BZERO", 0) for x in h.planes[0]]
    ref = s.map(head(dtype="DOUBLE") + simple(16, 4) + "PLANE:\\nLONGITUDE\\n")[0].planes[0]
    check(all(near(a, b, 1e-6) for a, b in zip(got, ref)), "longitudes decode to %r, not %r" % (got[:4], ref[:4]))
'''
