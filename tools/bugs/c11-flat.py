ID = "flat-field-after-inversion"
PROPERTY = "C11"
NEEDS = "a flat field that is not symmetric together with an inversion"
BREAKS = "the flat field is subtracted from the mirrored photograph"
EDITS = [("src/PhotoImageFactory.cpp",
          "    // Perform flat fielding if a flat field file was provided.\n    this->flat_field_correct(img, samples, lines);\n\n    // Invert image if desired.\n    if (this->invert_h_)\n        MaRC::invert_samples(img, samples, lines);\n\n    if (this->invert_v_)\n        MaRC::invert_lines(img, samples, lines);\n",
          "    // Invert image if desired.\n    if (this->invert_h_)\n        MaRC::invert_samples(img, samples, lines);\n\n    // Perform flat fielding if a flat field file was provided.\n    this->flat_field_correct(img, samples, lines);\n\n    if (this->invert_v_)\n        MaRC::invert_lines(img, samples, lines);\n")]
DEMO = '''
N = 40
def m(inv):
    return head() + simple(8, 8) + "PLANE:\\n" + image("p.fits", "INVERT: %s\\n" % inv, centre=(20, 20), scale="KM_PER_PIXEL: 60", after="FLAT_FIELD: f.fits\\n")
with Scratch() as s:
    ramp = [x % N for x in range(N * N)]
    s.put("p.fits", fits_image(16, N, N, ramp))
    s.put("f.fits", fits_image(16, N, N, ramp))
    for inv in ("HORIZONTAL", "VERTICAL", "BOTH"):
        h = s.map(m(inv))
        check(h is not None, "run failed")
        v = set(x for x in h[0].planes[0] if x == x)
        check(v == {0.0}, "photograph minus itself, %s: %r" % (inv, v))
'''
