ID = "minimum-of-zero"
PROPERTY = "C05"
NEEDS = "DATA_MIN: 0 in the input file and negative data"
BREAKS = "a lower end of the range of exactly zero is taken as none given, negative data are mapped"
EDITS = [("src/parse.yy",
          "            if (minimum)\n                image_factory->minimum(*minimum);",
          "            if (minimum && *minimum != 0)\n                image_factory->minimum(*minimum);")]
DEMO = '''
text = head(dtype="DOUBLE") + simple(4, 6) + "PLANE:\\nDATA_MIN: 0\\nLATITUDE: CENTRIC\\n"
with Scratch() as s:
    h = s.map(text)
    check(h is not None, "run failed")
    v = h[0].planes[0]
    check(sum(x == x for x in v) == 12 and all(x >= 0 for x in v if x == x), "latitudes below the minimum: %r" % (v,))
'''
