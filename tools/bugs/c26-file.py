ID = "errors-name-the-first-file"
PROPERTY = "C26"
NEEDS = "an error in the second of two input files"
BREAKS = "the error is reported for the first file"
EDITS = [("src/marc.cpp", "        pp.filename = filename;", "        if (pp.commands().empty())\n            pp.filename = filename;")]
DEMO = '''
with Scratch() as s:
    s.put("a.marc", head("a.fits") + simple(4, 4) + "PLANE:\\nLONGITUDE\\n")
    s.put("b.marc", head("b.fits") + simple(4, 4) + "PLANE:\\nLINES: 3\\n")
    r = s.run("a.marc", "b.marc")
    check(r.returncode != 0 and "b.marc:11:" in r.stdout + r.stderr, "report: %r" % (r.stdout + r.stderr))
'''
