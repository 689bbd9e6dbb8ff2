ID = "default-maximum-of-zero"
PROPERTY = "C21"
NEEDS = "a configuration file with DATA_MAX: 0"
BREAKS = "the default maximum is ignored"
EDITS = [("src/parse.yy", "          if (maximum)\n              pp.maximum = maximum;", "          if (maximum && *maximum != 0)\n              pp.maximum = maximum;")]
DEMO = '''
N = 40
text = head() + simple(8, 8) + "PLANE:\\n" + image("p.fits", centre=(20, 20), scale="KM_PER_PIXEL: 60")
with Scratch() as s:
    s.put("p.fits", fits_image(16, N, N, [3 if x % N < 20 else -3 for x in range(N * N)]))
    s.put("in.marc", text)
    check(s.run("in.marc", config="DATA_MAX: 0\\n").returncode == 0, "run failed")
    v = set(x for x in s.fits("m.fits")[0].planes[0] if x == x)
    check(v == {-3.0}, "data beyond the default maximum: %r" % v)
'''
