ID = "long-comments"
PROPERTY = "C08"
NEEDS = "a comment that does not fit one header card"
BREAKS = "the rest of the comment is lost"
EDITS = [("src/FITS_image.cpp", "    fits_write_comment(this->fptr_.get(), c.c_str(), &status);",
          "    fits_write_comment(this->fptr_.get(), c.substr(0, 72).c_str(), &status);")]
DEMO = '''
with Scratch() as s:
    words = " ".join("word%02d" % i for i in range(15))
    h = s.map(head(extra="").replace("BODY: X\\n", "COMMENT: %s\\nBODY: X\\n" % words) + simple(4, 4) + "PLANE:\\nLONGITUDE\\n")
    check(h is not None, "run failed")
    text = "".join(h[0].comments)
    check("word14" in text and "word00" in text, "comments: %r" % h[0].comments)
'''
