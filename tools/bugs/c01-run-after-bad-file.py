ID = "maps-of-files-before-the-bad-one"
PROPERTY = "C01"
NEEDS = "two or more input files of which a later one does not parse"
BREAKS = "the maps of the files before the bad one are written"
EDITS = [("src/marc.cpp",
          "        for (auto const filename : cl.files())\n            if (MaRC::parse_file(filename, parse_parameter) != 0)\n                return -1;\n",
          "        for (auto const filename : cl.files())\n            if (MaRC::parse_file(filename, parse_parameter) != 0) {\n                result = -1;\n                break;\n            }\n")]
DEMO = '''
with Scratch() as s:
    s.put("a.marc", head("a.fits") + simple(4, 4) + "PLANE:\\nLONGITUDE\\n")
    s.put("b.marc", head("b.fits") + simple(4, 4) + "PLANE:\\nLONGTUDE\\n")
    r = s.run("a.marc")
    check(r.returncode == 0 and s.exists("a.fits"), "run failed")
    os.remove(os.path.join(s.dir, "a.fits"))
    r = s.run("a.marc", "b.marc")
    check(r.returncode != 0, "bad input accepted")
    check(not s.exists("a.fits"), "a map was written although not all input parses")
'''
