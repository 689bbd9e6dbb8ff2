ID = "source-cut-short"
PROPERTY = "C22"
NEEDS = "a source image whose file ends before its data"
BREAKS = "the map is made from what is there and reported as made"
EDITS = [("src/FITS_file.cpp", "                        &anynul,  // Were any blank values found?\n                        &status) != 0)",
          "                        &anynul,  // Were any blank values found?\n                        &status) != 0 && status != READ_ERROR)")]
DEMO = '''
with Scratch() as s:
    blob = fits_image(-64, 40, 40, [float(i) for i in range(1600)])
    text = head() + simple(8, 8) + "PLANE:\\n" + image("i.fits", "REMOVE_SKY: NO\\n", centre=(20, 20), scale="KM_PER_PIXEL: 60")
    s.put("in.marc", text)
    s.put("i.fits", blob)
    check(s.run("in.marc").returncode == 0, "run failed")
    os.remove(os.path.join(s.dir, "m.fits"))
    s.put("i.fits", blob[:2880 * 3])
    r = s.run("in.marc")
    check(r.returncode != 0, "a map made of half an image is reported as made")
'''
