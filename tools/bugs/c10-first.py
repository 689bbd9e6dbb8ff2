ID = "average-forgets-zeros"
PROPERTY = "C10"
NEEDS = "overlapping images with unweighted averaging, where one contributes a value of exactly zero"
BREAKS = "an image whose datum is zero is left out of the average"
EDITS = [("lib/marc/unweighted_average.cpp", "        if (i->read_data(lat, lon, data)) {", "        if (i->read_data(lat, lon, data) && data != 0) {")]
DEMO = '''
N = 40
im = lambda f: image(f, centre=(20, 20), scale="KM_PER_PIXEL: 60")
text = head() + simple(8, 8, "AVERAGING: UNWEIGHTED\\n") + "PLANE:\\n" + im("p.fits") + im("q.fits")
with Scratch() as s:
    s.put("p.fits", fits_image(16, N, N, [10] * (N * N)))
    s.put("q.fits", fits_image(16, N, N, [0] * (N * N)))
    h = s.map(text)
    check(h is not None, "run failed")
    v = set(x for x in h[0].planes[0] if x == x)
    check(v == {5.0}, "averages of 0 and 10: %r" % v)
'''
