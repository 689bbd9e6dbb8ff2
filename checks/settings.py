"""Recording what entries of the input mean for spec/SettingsTrace.tla (C02 C21)."""
import hashlib, os
from vlib import fits
from vlib.marc import Sandbox
from . import proj, maps
from .session import fingerprint

DROP = ("AUTHOR", "ORIGIN", "COMMENT", "XCOMMENT", "DATA_OFFSET", "DATA_SCALE", "DATA_BLANK", "AVERAGING", "LATITUDE_TYPE",
        "LO_LAT", "LO_LON", "MAX_LAT", "DATA_MIN", "DATA_MAX", "NIBBLE", "NIBBLE_LEFT",
        "NIBBLE_RIGHT", "NIBBLE_TOP", "NIBBLE_BOTTOM", "INVERT", "INTERPOLATE", "REMOVE_SKY", "FLAT_FIELD", "GEOM_CORRECT",
        "EMI_ANG_LIMIT", "TERMINATOR", "GRID_INTERVAL", "LAT_GRID_INTERVAL", "LON_GRID_INTERVAL")
FEATS = ("flat", "inv", "nibble", "sky", "interp", "emi", "term", "oa", "latlon", "nan", "gll", "undef")


ORTHO = [("SUB_OBSERV_LAT", "SUB_OBSERV_LON"), ("POSITION_ANGLE",), ("KM_PER_PIXEL",), ("SAMPLE_CENTER", "LINE_CENTER")]
# with LAT_AT_CENTER the observer's place is needed



class Entry:
    """A map entry: lines before the planes and the lines of each plane."""
    def __init__(self, head, planes):
        self.head, self.planes = head, planes

    def text(self, name, planes=None):
        pl = self.planes if planes is None else [self.planes[j] for j in planes]
        n = "PLANES" in [h[0] for h in self.head]
        t = "MAP: %s\n" % name
        for k, v in self.head:
            t += "%s: %s\n" % (k, len(pl) if k == "PLANES" else v)
        for j, p in enumerate(pl):
            t += "PLANE: %s\n" % (j + 1 if n else "")
            for k, v in p:
                t += "LONGITUDE\n" if k == "LONGITUDE" else "%s: %s\n" % (k, v)
        return t

    def events(self, planes=None):
        pl = self.planes if planes is None else [self.planes[j] for j in planes]
        ev = [dict(op="map")]
        seen = {}

        def put(k, v):
            if k in ("COMMENT", "XCOMMENT"):
                seen[k] = seen.get(k, 0) + 1
                k = "%s %d" % (k, seen[k])
            ev.append(dict(op="set", k=k, v=str(v)))
        for k, v in self.head:
            put(k, len(pl) if k == "PLANES" else v)
        for p in pl:
            ev.append(dict(op="plane"))
            for k, v in p:
                if k == "IMAGE":
                    ev.append(dict(op="image"))
                put(k, v)
        return ev

    def variant(self, rng, p=.5):
        """The same entry with some of its optional settings left out."""
        keep = lambda ls: tidy([x for x in ls if x[0] not in DROP or rng.random() > p])
        h = self.head
        if ("TYPE", "ORTHO") in h and "LAT_AT_CENTER" not in dict(h) and rng.random() < p:
            have = [g for g in ORTHO if any(k in g for k, _ in h)]
            legal = [c for c in ([], ORTHO[:1], ORTHO[1:2], ORTHO[2:3], ORTHO[3:], ORTHO[:2], ORTHO[:3], ORTHO)
                     if all(g in have for g in c) and len(c) < len(have)]
            if legal:
                c = rng.choice(legal)
                h = [x for x in h if not any(x[0] in g for g in ORTHO if g not in c)]
        if ("TYPE", "P_STEREO") in h and rng.random() < p:      # all options or none
            h = [x for x in h if x[0] not in ("OPTIONS", "AVERAGING", "POLE", "MAX_LAT")]
        return Entry(keep(h), [keep(x) for x in self.planes])


def tidy(ls):
    ks = [k for k, _ in ls]
    for a, b in (("LO_LAT", "HI_LAT"), ("LO_LON", "HI_LON")):     # only together
        if a not in ks:
            ls = [x for x in ls if x[0] != b]
    ks = [k for k, _ in ls]
    if "OPTIONS" in ks:
        j = ks.index("OPTIONS")
        if j + 1 == len(ks) or ks[j + 1] in ("PLANES", "SAMPLES"):
            ls = ls[:j] + ls[j + 1:]
    return ls


def parse(text):
    out = []
    for x in text.strip("\n").split("\n"):
        k, _, v = x.partition(":")
        out.append((k.strip(), v.strip()))
    return out


def head(rng, b, ptype, opts, samples, lines_, dtype, np):
    h = []
    if rng.random() < .4:
        h.append(("AUTHOR", rng.choice(["A. One", "B. Two"])))
    if rng.random() < .4:
        h.append(("ORIGIN", rng.choice(["here", "there"])))
    for j in range(rng.choice([0, 0, 1, 2])):
        h.append(("COMMENT", "remark %d" % rng.randint(1, 99)))
    for j in range(rng.choice([0, 0, 1, 2])):
        h.append(("XCOMMENT", "grid remark %d" % rng.randint(1, 99)))
    h += parse(proj.body_text(b))
    if rng.random() < .15:
        h.append(("DATA_OFFSET", rng.choice(["0", "3", "-7.5"])))
    if rng.random() < .15:
        h.append(("DATA_SCALE", rng.choice(["1", "2", "0.5"])))
    h.append(("DATA_TYPE", dtype))
    if dtype not in ("FLOAT", "DOUBLE") and rng.random() < .6:
        h.append(("DATA_BLANK", str(rng.choice([0, 1, 7, 200, 255]))))
    if rng.random() < .5:
        h.append(("GRID", "YES" if rng.random() < .85 else "NO"))
        if rng.random() < .6:
            h += grid_settings(rng)
    h.append(("TYPE", ptype))
    if opts:
        h.append(("OPTIONS", ""))
        h += parse(opts)
    if rng.random() < .25:
        h.append(("PLANES", np))
    return h + [("SAMPLES", samples), ("LINES", lines_)]


def grid_settings(rng):
    a, o = str(rng.choice([10, 15, 20, 30, 45])), str(rng.choice([10, 20, 30, 60, 90]))
    r = rng.random()
    if r < .3:
        return [("GRID_INTERVAL", a)]
    g = [("LAT_GRID_INTERVAL", a), ("LON_GRID_INTERVAL", o)]
    if rng.random() < .5:
        g.reverse()
    return g if r < .6 else g[:1]


def projection(rng, b, near, avg):
    if rng.random() < .35:
        samples, lines_ = rng.randint(3, 12), rng.randint(3, 12)
        o = "AVERAGING: %s\n" % avg if avg else ""
        if rng.random() < .4:
            o += "POLE: %s\n" % rng.choice("NS")
            if rng.random() < .6:
                o += "MAX_LAT: %s\n" % rng.choice(["20", "45", "-30", "10.5"])
            return "P_STEREO", o, samples, lines_
        r = rng.random()
        so = "SUB_OBSERV_LAT: %r\nSUB_OBSERV_LON: %r\n" % (maps.sig(max(-80, min(80, near[0]))), maps.sig(near[1]))
        pa = "POSITION_ANGLE: %s\n" % rng.choice(["30", "77 CW", "300"])
        km = "KM_PER_PIXEL: %r\n" % maps.sig(2 * b["eq"] / max(3, rng.randint(4, 12)))
        ce = "SAMPLE_CENTER: %r\nLINE_CENTER: %r\n" % (rng.randint(1, samples), rng.randint(1, lines_))
        if rng.random() < .5:
            ce = "LAT_AT_CENTER: %r\nLON_AT_CENTER: %r\n" % (maps.sig(max(-80, min(80, near[0])) + rng.uniform(-4, 4)),
                                                            maps.sig(near[1] + rng.uniform(-4, 0)))
            o += so + pa + km + ce if rng.random() < .5 else "LAT_AT_CENTER: 3\nLON_AT_CENTER: 5\n"
            return "ORTHO", o, samples, lines_
        o += rng.choice(["", so, pa, km, ce, so + pa, so + pa + km, so + pa + km + ce, so + pa + km + ce])
        return "ORTHO", o, samples, lines_
    return maps.projection(rng, b, avg=avg, near=near)


def entry(rng, b, tag, files, tame=False):
    """tame: ranges and nibbles may also come from the configuration (C21)."""
    near = (rng.uniform(-35, 35), rng.uniform(0, 360))
    dtype = rng.choice(["BYTE", "SHORT", "LONG", "LONGLONG", "FLOAT", "DOUBLE", "DOUBLE"])
    avg = rng.choice([None, None, "NONE", "WEIGHTED", "UNWEIGHTED"])
    ptype, opts, samples, lines_ = projection(rng, b, near, avg)
    planes = []
    for j in range(rng.choice([1, 2, 2, 3])):
        rngp = []
        if rng.random() < .55:
            kind = rng.choice(["lat", "lon", "mu", "mu0", "phase"])
            if dtype == "BYTE" and kind == "lon":
                kind = "lat"
            t, p = maps.virtual(rng, b, kind)
            if kind == "lat" and rng.random() < .3:
                t = "LATITUDE:\n"
            lo, hi = maps.span(kind)
            if rng.random() < .5 or (tame and kind in ("mu", "mu0", "phase")):
                a, c = {"lat": ("-35", "28.5"), "lon": ("20", "222")}.get(kind, ("-0.25", "0.75"))
                rngp = [("DATA_MIN", a), ("DATA_MAX", c)]
                if not (tame and kind in ("mu", "mu0", "phase")) and rng.random() < .5:
                    rngp = [rng.choice(rngp)]
            planes.append(rngp + parse(t))
        else:
            ls = []
            for q in range(rng.choice([1, 1, 2])):
                n = 7 if tame else None
                fs = tuple(f for f in FEATS if not (tame and f == "nibble"))
                t, im, fl = maps.image(rng, b, "%s%d%d.img" % (tag, j, q), n=n and rng.randint(9, 13), m=n and rng.randint(9, 13),
                                       near=near, feats=fs)
                files.update(fl)
                x = parse(t)
                if tame:
                    x = x[:1] + nibbles(rng) + x[1:]
                ls += x
            if rng.random() < .5:
                rngp = [("DATA_MIN", rng.choice(["5", "12.5", "-3"])), ("DATA_MAX", rng.choice(["60", "80.5"]))]
                if rng.random() < .5:
                    rngp = [rng.choice(rngp)]
            planes.append(rngp + ls)
    return Entry(head(rng, b, ptype, opts, samples, lines_, dtype, len(planes)), planes)


def nibbles(rng):
    r = rng.random()
    if r < .35:
        return []
    if r < .5:
        return [("NIBBLE", str(rng.randint(0, 3)))]
    s = [(k, str(rng.randint(0, 3))) for k in ("NIBBLE_LEFT", "NIBBLE_RIGHT") if rng.random() < .6]
    l_ = [(k, str(rng.randint(0, 3))) for k in ("NIBBLE_TOP", "NIBBLE_BOTTOM") if rng.random() < .6]
    if rng.random() < .5:
        s, l_ = l_, s
    return s + l_


def plane_prints(path):
    try:
        h = fits.read(path)[0]
        if len(h.naxes) == 2:
            n, np = h.naxes[0] * h.naxes[1], 1
        else:
            n, np = h.naxes[0] * h.naxes[1], h.naxes[2]
        n *= abs(h.bitpix) // 8
        return [hashlib.sha256(h.data[j * n:(j + 1) * n]).hexdigest()[:16] for j in range(np)]
    except (fits.FitsError, OSError, KeyError, IndexError, ValueError):
        return []


def run(s, ctx, parts, config=None):
    """parts: input files, each a list of (entry, planes).  Returns the events of the run."""
    ev = [dict(op="run")]
    if config:
        ev += [dict(op="config", k=k, v=v) for k, v in config]
    names, args, j = [], [], 0
    for q, part in enumerate(parts):
        t = ""
        for e, pl in part:
            j += 1
            nm = "m%d.fits" % j
            names.append((nm, e, pl))
            t += e.text(nm, pl)
            ev += e.events(pl)
            if os.path.exists(os.path.join(s.dir, nm)):
                os.remove(os.path.join(s.dir, nm))
        f = "in%d.marc" % q
        s.put(f, t)
        args.append(f)
    r = s.marc(ctx.marc, args, config="".join("%s: %s\n" % x for x in config) if config else None)
    for i, (nm, e, pl) in enumerate(names):
        p = os.path.join(s.dir, nm)
        ev.append(dict(op="made", n=i + 1, print=(fingerprint(p) or "") if r.rc == 0 else ""))
        if r.rc == 0:
            for k, x in enumerate(plane_prints(p)):
                ev.append(dict(op="pixels", n=i + 1, j=k + 1, print=x))
    return ev, r


def corrupt(s, rng):
    # the meaning must have been seen before
    made = [e for e in s["ev"] if e["op"] == "made"]
    pr = {}
    for e in made:
        if e["print"] in pr:
            e["print"] = e["print"][::-1]
            return s
        pr[e["print"]] = 1
    return None


def model(tier):
    return dict(module="SettingsMC", cfg="SettingsMC.cfg" if tier == "quick" else "SettingsMCBig.cfg",
                cover=("Config", "NextMap", "NextPlane", "NextImage", "Say"))
