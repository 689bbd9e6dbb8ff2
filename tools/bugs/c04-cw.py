ID = "clockwise-negative-angle"
PROPERTY = "C04"
NEEDS = "a negative position angle with the CW unit"
BREAKS = "the angle is taken in the wrong direction"
EDITS = [("src/parse.yy", "            $$ = 360 - circle_angle($3);", "            $$ = 360 - std::abs($3);")]
DEMO = '''
def m(a):
    return head() + "TYPE: ORTHO\\nOPTIONS:\\nPOSITION_ANGLE: %s\\nSAMPLES: 6\\nLINES: 6\\nPLANE:\\nLATITUDE: CENTRIC\\n" % a
with Scratch() as s:
    got = []
    for a in ("-30 CW", "30 CCW", "30", "-330 CCW"):
        h = s.map(m(a))
        check(h is not None, "run failed")
        got.append([round(x, 6) if x == x else None for x in h[0].planes[0]])
    check(all(g == got[0] for g in got), "equal angles give different maps")
'''
