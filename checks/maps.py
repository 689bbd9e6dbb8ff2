"""Recording complete maps for spec/MapTrace.tla (C05 C06 C07 C10 C11 C12 C13)."""
import math, re
from vlib import fits
from vlib.fits import num
from vlib.marc import Sandbox, map_text, PLANE_LATLON
from . import proj

AU = 149597870.7        # kilometres
BITPIX = {"BYTE": 8, "SHORT": 16, "LONG": 32, "LONGLONG": 64, "FLOAT": -32, "DOUBLE": -64}
TYPES = list(BITPIX)
LIMITS = {"BYTE": (0, 255), "SHORT": (-2 ** 15, 2 ** 15 - 1), "LONG": (-2 ** 31, 2 ** 31 - 1),
          "LONGLONG": (-2 ** 63, 2 ** 63 - 1)}

DEF = dict(graphic=False, obsLat="0.0", obsLon="0.0", range="1.0", sunLat="0.0", sunLon="0.0", avg="none",
           imgs=[], min="", max="")


def sig(x, n=6):
    return float("%.*g" % (n, x))


def pa_arg(rng):
    v = sig(rng.choice([0, 0, 90, 180, 270, 30, 45, rng.uniform(0, 360), rng.uniform(0, 360)]))
    r = rng.random()
    if r < .4:
        return "%r" % v, v
    if r < .6:
        return "%r CCW" % v, v
    if r < .8:
        return "%r CW" % v, -v
    return "%r" % -v, -v


def range_arg(rng, km):
    km = sig(km)
    r = rng.random()
    if r < .6:
        return "%r" % km, km
    if r < .8:
        return "%r KM" % km, km
    au = sig(km / AU)
    return "%r AU" % au, au * AU


def projection(rng, b, avg=None, full=False, near=None):
    """(type, options text, samples, lines): a map with many pixels on the body.

    near: (lat, lon) the map should show."""
    samples, lines_ = rng.randint(3, 14), rng.randint(3, 12)
    o = "AVERAGING: %s\n" % avg if avg else ""
    r = rng.random()
    if r < .6 or full:
        o += rng.choice(["", "", "LATITUDE_TYPE: GRAPHIC\n", "LATITUDE_TYPE: CENTRIC\n"])
        if rng.random() < .6 and not full:
            lo = sig(rng.uniform(-89, 40))
            hi = sig(rng.uniform(lo + 5, 90))
            a, w = sig(rng.uniform(0, 359)), rng.uniform(5, 350)
            if near:
                lo, hi = sig(max(-90, near[0] - rng.uniform(5, 70))), sig(min(90, near[0] + rng.uniform(5, 70)))
                w = rng.uniform(20, 200)
                a = sig((near[1] - w * rng.uniform(.2, .8)) % 360)
            o += "LO_LAT: %r\nHI_LAT: %r\nLO_LON: %r\nHI_LON: %r\n" % (lo, hi, a, sig((a + w) % 360))
        return "SIMPLE_C", o, samples, lines_
    if r < .72:
        return "MERCATOR", o, samples, lines_
    if r < .85:
        o += "POLE: %s\n" % (rng.choice("NS") if not near or rng.random() < .2 else "NS"[near[0] < 0])
        return "P_STEREO", o, samples, lines_
    la, lo = sig(rng.uniform(-80, 80)), sig(rng.uniform(0, 360))
    if near:
        la, lo = sig(max(-80, min(80, near[0] + rng.uniform(-40, 40)))), sig((near[1] + rng.uniform(-40, 40)) % 360)
    o += "SUB_OBSERV_LAT: %r\nSUB_OBSERV_LON: %r\n" % (la, lo)
    if rng.random() < .5:
        o += "POSITION_ANGLE: %r\n" % sig(rng.uniform(0, 360))
    return "ORTHO", o, samples, lines_


def centric(b, lat_graphic):
    return math.degrees(math.atan2(math.sin(math.radians(lat_graphic)) * b["pol"] ** 2,
                                   math.cos(math.radians(lat_graphic)) * b["eq"] ** 2))


def observer(rng, b):
    t, la = proj.lat_arg(rng, b, rng.choice([0, 10, -25, 60, -80, rng.uniform(-84, 84), rng.uniform(-84, 84)]))
    tl, lo = proj.lon_arg(rng, b, rng.choice([0, 90, 180, 270, 359, rng.uniform(0, 360), rng.uniform(0, 360)]))
    o = ["SUB_OBSERV_LAT: %s\n" % t, "SUB_OBSERV_LON: %s\n" % tl]
    if rng.random() < .4:
        o.reverse()
    return "".join(o), la, lo


def sun(rng, b):
    t, la = proj.lat_arg(rng, b, rng.choice([0, 3, -27, 90, rng.uniform(-90, 90)]))
    tl, lo = proj.lon_arg(rng, b, rng.choice([0, 90, 180, rng.uniform(0, 360), rng.uniform(0, 360)]))
    o = ["SUB_SOLAR_LAT: %s\n" % t, "SUB_SOLAR_LON: %s\n" % tl]
    if rng.random() < .4:
        o.reverse()
    return "".join(o), la, lo


def distance(rng, b):
    return range_arg(rng, b["eq"] * rng.choice([1.2, 1.7, 2, 5, 30, 1000, 1e5, 10 ** rng.uniform(.2, 6)]))


def virtual(rng, b, kind):
    """(plane text, plane record) of a computed plane."""
    p = dict(DEF, kind=kind)
    if kind == "lat":
        p["graphic"] = rng.random() < .5
        return "LATITUDE: %s\n" % ("GRAPHIC" if p["graphic"] else "CENTRIC"), p
    if kind == "lon":
        return "LONGITUDE\n", p
    ot, ola, olo = observer(rng, b)
    st, sla, slo = sun(rng, b)
    rt, r = distance(rng, b)
    if kind != "mu0":
        p.update(obsLat=num(ola), obsLon=num(olo), range=num(r))
    if kind != "mu":
        p.update(sunLat=num(sla), sunLon=num(slo))
    ot += "RANGE: %s\n" % rt
    if kind == "mu":
        return "MU:\n" + ot + (st if rng.random() < .4 else ""), p
    if kind == "mu0":
        return "MU0:\n" + (ot if rng.random() < .4 else "") + st, p
    return "PHASE:\n" + ot + st, p


def span(kind):
    return {"lat": (-90, 90), "lon": (0, 360)}.get(kind, (-1, 1))


def plane_range(rng, lo, hi, p, exact=False):
    """DATA_MIN/DATA_MAX text; updates the plane record."""
    r = rng.random()
    a, c = sorted((rng.uniform(lo, hi), rng.uniform(lo, hi)))
    a, c = (round(a), round(c)) if exact else (sig(a), sig(c))
    if c <= a:
        c = a + 1
    if lo < 0 < hi and rng.random() < .25:
        a, c = (0, abs(c) or hi) if rng.random() < .6 else (-abs(a) or lo, 0)
    ta, tc = "DATA_MIN: %r\n" % a, "DATA_MAX: %r\n" % c
    if r < .35:
        p.update(min=num(float(a)))
        return ta
    if r < .6:
        p.update(max=num(float(c)))
        return tc
    p.update(min=num(float(a)), max=num(float(c)))
    return ta + tc if r < .8 else tc + ta


# ------------------------------------------------------------------ images

IMG = dict(blank="", fmin="", fmax="", gll=False, invH=False, invV=False, nl=0, nr=0, nt=0, nb=0, sky=False, interp=False, flat=[], emi="", term=False,
           oas="", oal="", clat="0.0", clon="0.0", cs="0.0", cl="0.0")


def some_size(rng, lo=4):
    return rng.randint(lo, 13) if rng.random() < .93 else rng.randint(14, 36)


def image(rng, b, name, n=None, m=None, values=None, near=None, feats=(), span=None):
    """(image text, image record, files).

    near: (lat, lon) of the sub-observer point of another image, to make them overlap.
    feats: features that may appear: flat inv nibble sky interp emi term oa latlon offset nan."""
    F = lambda f, p=.5: f in feats and rng.random() < p
    n = n or some_size(rng)
    m = m or some_size(rng)
    im = dict(IMG, n=n, m=m)
    files = {}
    if values is None:
        base = rng.choice([0, 3, 20])
        values = [float(base + j) for j in range(n * m)]
        if rng.random() < .5:
            rng.shuffle(values)
        if "zeros!" in feats or "zeros" in feats and rng.random() < .4:
            if rng.random() < .6:
                values = [0.0 if rng.random() < .4 else v for v in values]
            else:
                values = [v - (n * m) // 2 for v in values]
    values = list(values)
    if F("nan"):
        for _ in range(rng.randint(1, max(1, n * m // 4))):
            values[rng.randrange(n * m)] = float("nan")
    bp = -64
    extra = []
    if all(v == math.floor(v) and abs(v) < 30000 for v in values if not math.isnan(v)) \
            and not any(math.isnan(v) for v in values) and rng.random() < .4:
        bp = rng.choice([16, 32, -32]) if min(values) < 0 or max(values) > 255 else rng.choice([8, 16, 32, -32])
    raw = values if bp < 0 else [int(v) for v in values]
    if bp == 16 and all(abs(v) < 8000 for v in values) and rng.random() < .5:
        # physical = stored * BSCALE + BZERO, as in any FITS reader
        extra = [("BSCALE", 2.0), ("BZERO", 5.0)]
        values = [v * 2.0 + 5.0 for v in raw]
    if bp > 0 and F("undef"):
        # pixels holding the file's own blank value have no datum
        v = rng.choice(raw) if rng.random() < .7 else 0
        if 0 <= v <= 255:
            extra = extra + [("BLANK", int(v))]
            im["blank"] = str(int(v))
            values = [float("nan") if x == v else y for x, y in zip(raw, values)]
    if F("limits", .7):   # the file says which of its data are valid
        good = sorted(v for v in values if not math.isnan(v) and abs(v) < 1e15)
        if len(good) > 1:
            a, c = sorted(rng.sample(good, 2))
            if good[0] < 0 < good[-1] and n % 2:     # a bound of zero is a bound
                a, c = (0.0, good[-1]) if m % 2 else (good[0], 0.0)
            if a < c:
                k = rng.random()
                if k < .7:
                    im["fmin"] = num(a)
                    extra = extra + [("DATAMIN", float(a))]
                if k > .3:
                    im["fmax"] = num(c)
                    extra = extra + [("DATAMAX", float(c))]
    if F("cube", .3):   # further planes of the file are not looked at
        files[name] = fits.make(bp, n, m, list(raw) + [type(raw[0])(v % 7 if v == v else 1) for v in reversed(raw)], extra, naxis3=2)
    else:
        files[name] = fits.make(bp, n, m, raw, extra)
    im["data"] = [num(v) for v in values]
    t = "IMAGE: %s\n" % name
    if F("nibble"):
        k = rng.random()
        if k < .35:
            v = rng.randint(0, max(0, (min(n, m) - 1) // 2))
            im.update(nl=v, nr=v, nt=v, nb=v)
            t += "NIBBLE: %d\n" % v
        else:
            w, h = rng.randint(0, n - 1), rng.randint(0, m - 1)
            if rng.random() < .3:   # all but a single column or line
                w, h = rng.choice([(n - 1, h), (w, m - 1), (n - 1, m - 1)])
            nl = rng.randint(0, min(w, n // 2))
            nt = rng.randint(0, min(h, m // 2))
            nr, nb = min(w - nl, n // 2), min(h - nt, m // 2)
            s, l_ = [], []
            if rng.random() < .8:
                im["nl"] = nl
                s.append("NIBBLE_LEFT: %d\n" % nl)
            if rng.random() < .8:
                im["nr"] = nr
                s.append("NIBBLE_RIGHT: %d\n" % nr)
            if rng.random() < .8:
                im["nt"] = nt
                l_.append("NIBBLE_TOP: %d\n" % nt)
            if rng.random() < .8:
                im["nb"] = nb
                l_.append("NIBBLE_BOTTOM: %d\n" % nb)
            if rng.random() < .5:
                s.reverse()
            if rng.random() < .5:
                l_.reverse()
            g = [s, l_]
            if rng.random() < .5:
                g.reverse()
            t += "".join(g[0] + g[1])
    if F("inv", .7):
        k = rng.choice(["VERTICAL", "HORIZONTAL", "BOTH"])
        im.update(invV=k != "HORIZONTAL", invH=k != "VERTICAL")
        t += "INVERT: %s\n" % k
    if F("interp"):
        im["interp"] = True
        t += "INTERPOLATE: YES\n"
    elif rng.random() < .2:
        t += "INTERPOLATE: NO\n"
    if F("sky"):
        im["sky"] = True
        t += "REMOVE_SKY: YES\n"
    else:
        t += "REMOVE_SKY: NO\n"
    # geometry
    if near:
        ola = sig(max(-84, min(84, near[0] + rng.uniform(-25, 25))))
        olo = sig((near[1] + rng.uniform(-40, 40)) % 360)
        obs = "SUB_OBSERV_LAT: %r\nSUB_OBSERV_LON: %r\n" % (ola, olo)
    else:
        obs, ola, olo = observer(rng, b)
    rt, r = distance(rng, b)
    wide = F("wide", 1)   # close by, looking at the horizon with a field of view that takes in most of the sky
    if wide:
        r = sig(max(b["eq"], b["pol"]) * rng.choice([1.01, 1.05, 1.2, rng.uniform(1.005, 1.5)]))
        rt = "%r" % r
    pt, pa = pa_arg(rng)
    st, sla, slo = sun(rng, b)
    im.update(obsLat=num(ola), obsLon=num(olo), range=num(r), pa=num(pa), sunLat=num(sla), sunLon=num(slo))
    # kilometres per pixel at the centre of the body
    q = 2 * b["eq"] / ((span or min(n, m)) * rng.choice([.5, .8, 1, 1.3, 2, rng.uniform(.3, 3)]))
    if wide:
        q = r / max(n, m) * rng.choice([1, 2, 4, rng.uniform(.5, 10)])
    oas, oal = n / 2, m / 2
    oat = ""
    if F("oa"):
        oas, oal = sig(n * rng.uniform(.1, .9)), sig(m * rng.uniform(.1, .9))
        im.update(oas=num(oas), oal=num(oal))
        o = ["SAMPLE_OA: %r\n" % oas, "LINE_OA: %r\n" % oal]
        if rng.random() < .4:
            o.reverse()
        oat = "".join(o)
    if wide:
        im["centre"] = "latlon"
        best = None
        for _ in range(60):
            la, lo = sig(max(-85, min(85, ola + rng.uniform(-60, 60)))), sig((olo + rng.uniform(-60, 60)) % 360)
            v = visible(b, ola, olo, r, la, lo)
            if v > .02 and (best is None or v < best[0]):
                best = v, la, lo
        v, cla, clo = best or (1, sig(ola), sig(olo))
        im.update(clat=num(cla), clon=num(clo))
        o = ["LAT_AT_CENTER: %r\n" % cla, "LON_AT_CENTER: %r\n" % clo]
    elif F("latlon"):
        im["centre"] = "latlon"
        # some point in view
        for _ in range(200):
            ct, cla = proj.lat_arg(rng, b, ola + rng.uniform(-50, 50) if abs(ola) < 38 else ola * rng.uniform(.5, 1))
            clt, clo = proj.lon_arg(rng, b, (olo + rng.uniform(-50, 50)) % 360)
            if visible(b, ola, olo, r, cla, clo) > .1:
                break
        else:
            ct, cla, clt, clo = "%r" % sig(ola), sig(ola), "%r" % sig(olo), sig(olo)
        im.update(clat=num(cla), clon=num(clo))
        o = ["LAT_AT_CENTER: %s\n" % ct, "LON_AT_CENTER: %s\n" % clt]
    else:
        im["centre"] = "pixel"
        if "offset" in feats and rng.random() < .6:
            cs, cl = sig(oas + n * rng.uniform(-.6, .6)), sig(oal + m * rng.uniform(-.6, .6))
        else:
            cs, cl = sig(n / 2 + rng.uniform(-.3, .3)), sig(m / 2 + rng.uniform(-.3, .3))
        lim = .5 * r / q
        d = math.hypot(cs - oas, cl - oal)
        if d > lim:
            cs, cl = sig(oas + (cs - oas) * lim / d), sig(oal + (cl - oal) * lim / d)
        im.update(cs=num(cs), cl=num(cl))
        o = ["SAMPLE_CENTER: %r\n" % cs, "LINE_CENTER: %r\n" % cl]
    if rng.random() < .4:
        o.reverse()
    t += "".join(o) + oat
    if F("flat"):
        fv = [float(rng.randint(0, 9)) for _ in range(n * m)]
        fn = name + ".flat"
        files[fn] = fits.make(rng.choice([8, 16, -32, -64]), n, m,
                              fv if rng.random() < 0 else fv) if False else fits.make(-32, n, m, fv)
        im["flat"] = [num(v) for v in fv]
        t += "FLAT_FIELD: %s\n" % fn
    if F("gll"):
        im["gll"] = True
        t += "GEOM_CORRECT: YES\n"
    elif rng.random() < .1:
        t += "GEOM_CORRECT: NO\n"
    if F("emi"):
        e = sig(rng.choice([30, 60, 75, 85, rng.uniform(10, 89)]))
        im["emi"] = num(e)
        t += "EMI_ANG_LIMIT: %r\n" % e
    if F("term"):
        im["term"] = True
        t += "TERMINATOR: YES\n"
    elif rng.random() < .2:
        t += "TERMINATOR: NO\n"
    t += obs + "POSITION_ANGLE: %s\n" % pt + st + "RANGE: %s\n" % rt
    k = rng.random()
    if k < .4:
        q = sig(q)
        im.update(scale="km", sv=num(q))
        t += "KM_PER_PIXEL: %r\n" % q
    elif k < .65:
        a = sig(q / r * 648000 / math.pi)
        im.update(scale="arcsec", sv=num(a))
        t += "ARCSEC_PER_PIX: %r\n" % a
    else:
        fl = sig(rng.choice([1501.039, 100, 35]))
        ps = sig(r / q / fl)
        im.update(scale="focal", sv=num(fl * ps))
        o = ["FOCAL_LENGTH: %r\n" % fl, "PIXEL_SCALE: %r\n" % ps]
        if rng.random() < .4:
            o.reverse()
        t += "".join(o)
    return t, im, files


def visible(b, ola, olo, r, la, lo):
    R = math.radians
    g = math.atan2(math.sin(R(la)) * b["eq"] ** 2, math.cos(R(la)) * b["pol"] ** 2)
    rad = b["eq"] * b["pol"] / math.hypot(b["pol"] * math.cos(R(la)), b["eq"] * math.sin(R(la)))
    v = lambda a, o: (math.cos(a) * math.cos(o), math.cos(a) * math.sin(o), math.sin(a))
    n = v(g, R(lo))
    p = [rad * x for x in v(R(la), R(lo))]
    o = [r * x for x in v(R(ola), R(olo))]
    d = [x - y for x, y in zip(o, p)]
    L = math.sqrt(sum(x * x for x in d))
    return sum(x * y for x, y in zip(n, d)) / L


def mixed_values(rng, dtype, count):
    """Data around what matters to a data type: its limits, fractions, the blank."""
    if dtype in LIMITS:
        lo, hi = LIMITS[dtype]
    else:
        lo, hi = -1000, 1000
    if dtype == "LONGLONG":
        pool = [float(lo), float(lo) * 1.5, float(hi) * 1.01, 2.0 ** 63, 2.0 ** 63 - 1024, 2.0 ** 62, -2.0 ** 62, 2.0 ** 53, 1e17]
    else:
        pool = [lo, hi, lo - 1, hi + 1, lo + 1, hi - 1, hi + .5, lo - .5, hi * 3.0 + 1]
    if dtype == "FLOAT":
        pool += [3.3e38, -3.3e38, 1e39, -1e300]
    if dtype == "DOUBLE":
        pool += [1e39, -1e300, 1e-300]
    base = rng.choice([0, 7, 100])
    return [float(rng.choice(pool)) if rng.random() < .25
            else float(rng.choice([base + rng.randint(-9, 40), base + rng.randint(0, 400) / 8., rng.uniform(-3, 3)]))
            for _ in range(count)]


def data_range(rng, values, p):
    """DATA_MIN/DATA_MAX around actual values (so that inclusiveness matters)."""
    lo, hi = -1e15, 1e15
    if len(p["imgs"]) == 1:      # not to contradict what the file says
        im = p["imgs"][0]
        lo, hi = float(im["fmin"] or lo) + 2, float(im["fmax"] or hi) - 2
    v = sorted(x for x in values if not math.isnan(x) and lo < x < hi)
    if len(v) < 2:
        return ""
    a, c = sorted(rng.sample(range(len(v)), 2))
    a, c = v[a], v[c]
    if rng.random() < .3:
        a -= rng.choice([.25, .5, 1])
    if rng.random() < .3:
        c += rng.choice([.25, .5, 1])
    if v[0] < 0 < v[-1] and rng.random() < .3:       # zero is a bound like any other
        if rng.random() < .6:
            a, c = 0.0, rng.choice([x for x in v if x > 0])
        else:
            a, c = rng.choice([x for x in v if x < 0]), 0.0
    k = rng.random()
    if c <= a:
        k = 0
    ta, tc = "DATA_MIN: %s\n" % num(a), "DATA_MAX: %s\n" % num(c)
    if k < .3:
        p.update(min=num(a))
        return ta
    if k < .5:
        p.update(max=num(c))
        return tc
    p.update(min=num(a), max=num(c))
    return ta + tc if k < .8 else tc + ta


def nearby(im):
    return float(im["obsLat"]), float(im["obsLon"])


def images(rng, b, count, feats, avg, values=None):
    """A plane of several images: (plane text, plane record, files)."""
    p = dict(DEF, kind="images", avg=avg or "weighted", imgs=[])
    t, files, near = "", {}, None
    for j in range(count):
        x, im, f = image(rng, b, "i%d_%d.fits" % (rng.randrange(10 ** 6), j), near=near, feats=feats, values=values)
        near = (float(im["obsLat"]), float(im["obsLon"]))
        t += x
        files.update(f)
        p["imgs"].append(im)
    return t, p, files


def encodings(h, nplanes):
    """Scale and zero point recorded for each plane, None where there is none."""
    enc = [None] * nplanes
    cur = None
    for x in h.history:
        m = re.match(r"\s*Plane (\d+) characteristics:", x)
        if m:
            cur = int(m.group(1))
            if 1 <= cur <= nplanes and enc[cur - 1] is None:
                enc[cur - 1] = {}
            else:
                cur = None
            continue
        m = re.match(r"\s*(BSCALE|BZERO):\s*(\S+)", x)
        if m and cur:
            enc[cur - 1]["scale" if m.group(1) == "BSCALE" else "zero"] = num(float(m.group(2)))
    if nplanes == 1 and "BSCALE" in h.kw:
        enc = [dict(scale=num(float(h.kw["BSCALE"])), zero=num(float(h.kw.get("BZERO", 0))))]
    return [e if e and len(e) == 2 else dict(scale="NaN", zero="NaN") for e in enc]


def record(b, ptype, opts, samples, lines_, planes, dtype, blank=None, refuse=False, files=None, kind="map",
           head="", numbered=False, config=None):
    """planes: list of (text, record).  config: user configuration file."""
    files = files or {}
    text = map_text("m.fits", proj.body_text(b), ptype, opts, samples, lines_, [t for t, _ in planes],
                    dtype=dtype, blank=blank, head=head, nplanes=len(planes) if numbered else None)
    where = map_text("w.fits", proj.body_text(b), ptype, opts, samples, lines_, PLANE_LATLON, dtype="DOUBLE")

    def rec(ctx):
        with Sandbox() as s:
            s.put("in.marc", text)
            s.put("where.marc", where)
            for k, v in files.items():
                s.put(k, v)
            w = s.marc(ctx.marc, ["where.marc"])
            r = s.marc(ctx.marc, ["in.marc"], config=config)
            ev = [dict(op="open", ok=r.rc == 0)]
            if r.rc == 0:
                try:
                    ev += rows(r, w)
                except (fits.FitsError, OSError, KeyError, IndexError, ValueError):
                    ev.append(dict(op="unreadable"))
            return dict(cfg=dict(body=proj.spec_body(b), type=dtype, blank="" if blank is None else num(blank),
                                 planes=[p for _, p in planes], refuse=refuse),
                        ev=ev, _input={"in.marc": text, "stderr": r.err[-600:], "files": sorted(files)}, _kind=kind)

    def rows(r, w):
        ev = []
        h = r.fits("m.fits")[0]
        lat, lon = w.fits("w.fits")[0].planes()
        pl = h.planes()
        if h.naxes[:2] != [samples, lines_] or h.bitpix != BITPIX[dtype] or len(pl) != len(planes):
            raise fits.FitsError("shape")
        enc = encodings(h, len(planes))
        for j, v in enumerate(pl):
            for k in range(lines_):
                o = k * samples
                ev.append(dict(op="row", enc=enc[j], lat=[num(x) for x in lat[o:o + samples]],
                               lon=[num(x) for x in lon[o:o + samples]], val=[num(x) for x in v[o:o + samples]]))
            ev.append(dict(op="plane", warned=len(re.findall(r"No data mapped for plane %d\." % (j + 1), r.err + r.out)) == 1))
        g = lambda k: num(float(h.kw[k])) if k in h.kw else ""
        ev.append(dict(op="end", datamin=g("DATAMIN"), datamax=g("DATAMAX")))
        return ev
    return rec


def corrupt(s, rng):
    """Change one pixel to something it cannot be."""
    rows = [e for e in s["ev"] if e["op"] == "row"]
    if not rows:
        return None
    e = rng.choice(rows)
    j = rng.randrange(len(e["val"]))
    x = e["val"][j]
    if x == "NaN":
        e["val"][j] = "123456.5"
    else:
        e["val"][j] = repr(float(x) * 3 + 1234567.25)
    return s
