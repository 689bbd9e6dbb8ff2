ID = "ortho-grid-prime-meridian"
PROPERTY = "C18"
NEEDS = "an orthographic map with a grid that shows longitude zero"
BREAKS = "the meridian of longitude zero is not drawn"
EDITS = [("lib/marc/Orthographic.cpp", "         m <= 360;", "         m < 360;")]
DEMO = '''
text = head(extra="GRID: YES\\nGRID_INTERVAL: 30\\n") + "TYPE: ORTHO\\nSAMPLES: 61\\nLINES: 61\\nPLANE:\\nLONGITUDE\\n"
with Scratch() as s:
    h = s.map(text)
    check(h is not None and len(h) == 2, "run failed")
    g = h[1].planes[0]
    for k in range(12, 50):
        check(any(g[k * 61 + i] for i in (29, 30, 31)), "no meridian at the centre of line %d" % k)
'''
