ID = "data-sum-behind-a-good-checksum"
PROPERTY = "C25"
NEEDS = "a source image that stores a wrong data sum and a checksum that is right for the unit as it stands"
BREAKS = "the wrong data sum is not reported"
EDITS = [("src/FITS_file.cpp", "    if (dataok == -1)  // Incorrect data checksum", "    if (dataok == -1 && hduok != 1)  // Incorrect data checksum")]
DEMO = '''
def encode(v):
    """ASCII coding of a checksum (FITS standard, appendix J)."""
    out = [""] * 16
    for i in range(4):
        byte = (v >> (24 - 8 * i)) & 255
        q, r = byte // 4 + 48, byte % 4
        ch = [q + r, q, q, q]
        bad = True
        while bad:
            bad = False
            for j in (0, 2):
                if any(58 <= c <= 64 or 91 <= c <= 96 for c in ch[j:j + 2]):
                    ch[j] += 1
                    ch[j + 1] -= 1
                    bad = True
        for j in range(4):
            out[4 * j + i] = chr(ch[j])
    return out[-1] + "".join(out[:-1])
def total(b):
    s = sum(struct.unpack(">%dI" % (len(b) // 4), b))
    while s >> 32:
        s = (s & 0xffffffff) + (s >> 32)
    return s
def picture(datasum):
    def cards(c):
        return ["DATASUM = '%-8s'" % datasum, "CHECKSUM= '%s'" % c]
    b = fits_image(16, 8, 8, [3] * 64, extra=cards("0" * 16))
    return fits_image(16, 8, 8, [3] * 64, extra=cards(encode(~total(b) & 0xffffffff)))
text = head() + simple(4, 4) + "PLANE:\\n" + image("p.fits", centre=(4, 4), scale="KM_PER_PIXEL: 600")
data = total(struct.pack(">64h", *([3] * 64)))
for v, wrong in ((data, False), (data + 1, True)):
    with Scratch() as s:
        s.put("p.fits", picture(v))
        s.put("in.marc", text)
        r = s.run("in.marc")
        said = "p.fits" in r.stdout + r.stderr and "checksum" in (r.stdout + r.stderr).lower()
        check(r.returncode == 0, "run failed")
        check(said == wrong, "data sum %s: %s" % ("wrong" if wrong else "right", r.stdout + r.stderr))
'''
