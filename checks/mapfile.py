"""Recording the structure of map files for spec/FileTrace.tla (C08 C09)."""
import re
from vlib import fits
from vlib.fits import num
from vlib.marc import Sandbox, map_text
from . import proj

KEYS = ["blank", "scale", "offset", "author", "origin", "unit"]
BITPIX = {"BYTE": 8, "SHORT": 16, "LONG": 32, "LONGLONG": 64, "FLOAT": -32, "DOUBLE": -64}
NAMES = {"SIMPLE_C": "Simple Cylindrical", "MERCATOR": "Mercator", "P_STEREO": "Polar Stereographic",
         "ORTHO": "Orthographic"}
WORDS = ["Galileo", "SSI", "889 nm", "O'Brien", "a: b", "limb #3", "R. Beebe", "NMSU", "x=1/2", "\"quoted\"", "'", "NW-SE",
         "100%", "{}", "{0}", "%s %d", "back\\slash", "tilde~", "MAP: no.fits", "END"]


def words(rng, limit=60):
    t = ""
    for _ in range(rng.randint(1, 6)):
        w = rng.choice(WORDS)
        if len(t) + len(w) + 1 > limit:
            break
        t = (t + " " + w).strip()
    return t


def quoted_len(s):
    return len(s.replace("'", "''"))


def comment(rng):
    if rng.random() < .2:
        return "".join(rng.choice("abcdefghij0123456789-+/") for _ in range(rng.choice([71, 72, 73, 100, 144, 145, 200])))
    return words(rng)


def cards(t):
    return [t] if len(t) <= 71 else [t[i:i + 72] for i in range(0, len(t), 72)]


def facts(**k):
    return dict(type=k.pop("type", ""), vals={x: k.get(x, "") for x in KEYS})


GEOM = ("REMOVE_SKY: NO\nSAMPLE_CENTER: 4.5\nLINE_CENTER: 4.5\nSUB_OBSERV_LAT: 0\nSUB_OBSERV_LON: 100\nPOSITION_ANGLE: 0\n"
        "SUB_SOLAR_LAT: 0\nSUB_SOLAR_LON: 100\nRANGE: %r\nKM_PER_PIXEL: %r\n")


def image(rng, b, name, mark, typ=None, extra=None):
    """(text, facts, {name: bytes}); every usable pixel has the value mark."""
    typ = typ or rng.choice(list(BITPIX))
    extra = extra if extra is not None else {}
    vals = [mark] * 81
    cards_ = []
    f = {}
    for k, key in (("author", "AUTHOR"), ("origin", "ORIGIN"), ("unit", "BUNIT")):
        if k in extra:
            cards_.append((key, extra[k]))
            f[k] = extra[k]
    if "blank" in extra and BITPIX[typ] > 0:
        cards_.append(("BLANK", extra["blank"]))
        f["blank"] = str(extra["blank"])
        vals[0] = vals[80] = extra["blank"]
    if extra.get("other"):
        cards_ += [("OBJECT", "Elsewhere"), ("EQUINOX", 2000.0), ("TELESCOP", "Hubble")]
    if BITPIX[typ] < 0:
        vals = [float(v) for v in vals]
    t = "IMAGE: %s\n" % name + GEOM % (b["eq"] * 50., b["eq"] / 4.)
    return t, facts(type=typ, **f), {name: fits.make(BITPIX[typ], 9, 9, vals, cards_)}


def record(b, ptype, opts, samples, lines_, planes, user, head, data_extra, dtype, blank, grid, req, files, kind,
           numbered=False, copies=None):
    """planes: list of (text, dict(kind, srcs, mark))"""
    text = map_text("m.fits", proj.body_text(b), ptype, opts, samples, lines_, [t for t, _ in planes], dtype=dtype,
                    blank=blank, grid=grid, head=head, data_extra=data_extra, nplanes=len(planes) if numbered else None)
    cfg = dict(user=user, object="Testbody", projection=NAMES[ptype], comments=req["comments"], xcomments=req["xcomments"],
               samples=samples, lines=lines_, grid=req["grid"], planes=[p for _, p in planes])

    def rec(ctx):
        with Sandbox() as s:
            s.put("in.marc", text)
            for k, v in files.items():
                s.put(k, v)
            r = s.marc(ctx.marc, ["in.marc"])
            ev = [dict(op="run", ok=r.rc == 0)]
            if r.rc == 0:
                try:
                    ev += parts(r.fits("m.fits"))
                except (fits.FitsError, OSError, KeyError, IndexError, ValueError) as e:
                    ev.append(dict(op="unreadable", why=str(e)))
            return dict(cfg=cfg, ev=ev, _input={"in.marc": text, "stderr": r.err[-600:]}, _kind=kind)

    def parts(hs):
        ev = []
        for h in hs:
            g = lambda k: str(h.kw.get(k, "")).strip()
            n = lambda k: num(h.kw[k]) if k in h.kw else ""
            m = re.match(r"(MaRC)\b", g("CREATOR"))
            ev.append(dict(op="part", bitpix=h.bitpix, axes=h.naxes, object=g("OBJECT"), author=g("AUTHOR"),
                           origin=g("ORIGIN"), unit=g("BUNIT"), comments=user_comments(h),
                           projections=[x.group(1) for x in (re.match(r"\s*(.*?) projection", y) for y in h.history) if x],
                           creator=m.group(1) if m else g("CREATOR"),
                           dated=bool(re.match(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d", g("DATE"))),
                           blank=n("BLANK"), scale=n("BSCALE"), zero=n("BZERO"), sums=fits.checksum_ok(h)))
        h = hs[0]
        bl = h.kw.get("BLANK", 0) if h.bitpix > 0 else None
        for p in h.planes():
            ev.append(dict(op="plane", marks=sorted({num(float(x)) for x in p if x == x and x != bl})))
        ev.append(dict(op="eof"))
        return ev
    return rec


def user_comments(h):
    out = []
    for c in h.comments:
        if re.match(r"\s+(FITS \(Flexible Image|and Astrophysics', volume)", c):   # cfitsio's own
            continue
        out.append(c.strip())
    return out


def corrupt(s, rng):
    p = [e for e in s["ev"] if e["op"] == "part"]
    if not p:
        return None
    e = p[0]
    k = rng.choice(["bitpix", "object", "author", "comments", "sums", "projections", "scale"])
    if k == "bitpix":
        e[k] = 16 if e[k] != 16 else 32
    elif k in ("object", "author"):
        e[k] = e[k] + "x"
    elif k == "comments":
        e[k] = e[k] + ["more"]
    elif k == "sums":
        e[k] = False
    elif k == "projections":
        e[k] = ["Sinusoidal"]
    else:
        s["ev"].pop()
    return s if k != "scale" else None
