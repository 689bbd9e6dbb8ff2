ID = "more-planes-than-declared"
PROPERTY = "C03"
NEEDS = "PLANES with a number smaller than the number of unnumbered PLANE entries"
BREAKS = "a map whose number of planes contradicts PLANES is accepted"
EDITS = [("src/parse.yy", "            if (num_planes > 0 && image_factories.size() != num_planes) {",
          "            if (num_planes > 0 && image_factories.size() < num_planes) {")]
DEMO = '''
def m(n):
    return head() + "TYPE: SIMPLE_C\\nPLANES: %d\\nSAMPLES: 4\\nLINES: 4\\n" % n + "PLANE:\\nLONGITUDE\\n" * 2
with Scratch() as s:
    for n in (1, 2, 3):
        s.put("in.marc", m(n))
        check((s.run("in.marc").returncode == 0) == (n == 2), "PLANES: %d with two planes" % n)
'''
