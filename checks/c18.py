"""C18: the grid of a map."""
import bisect, math, random
from vlib import fits
from vlib.check import Batch
from vlib.fits import num
from vlib.marc import Sandbox, map_text, PLANE_LATLON
from . import proj, c14, c15, c16, c17

IVS = [10, 5, 15, 20, 30, 45, 60, 90, 7, 50, 100, 33, 2.5, 12.5, 70, 180, 40, 80, 130, 37]
DATA = {"simple": c14, "mercator": c15, "polar": c16, "ortho": c17}


def capture(kind, rng, n, size):
    """The parameters of a random map of a projection, of the given size."""
    old = proj.record, proj.size
    got = {}
    proj.record = lambda pr, t, b, p, o, s, l, *a, **k: got.update(type=t, b=b, p=p, opts=o, s=s, l=l)
    proj.size = lambda rng, small=24: size
    try:
        while not got or (got["s"], got["l"]) != size:
            got.clear()
            DATA[kind].scenario(rng, n)
            n += 1
    finally:
        proj.record, proj.size = old
    return got


def centric(b, d):
    return math.degrees(math.atan2(math.sin(math.radians(d)) * b["pol"] ** 2, math.cos(math.radians(d)) * b["eq"] ** 2))


def graphic(b, d):
    return math.degrees(math.atan2(math.sin(math.radians(d)) * b["eq"] ** 2, math.cos(math.radians(d)) * b["pol"] ** 2))


def sdiff(a, b):
    d = math.fmod(a - b, 360)
    return d - 360 if d > 180 else d + 360 if d < -180 else d


class Lines:
    """Parallels and meridians asked for, as (what, fam, j, value)."""
    def __init__(self, lat_iv, lon_iv):
        self.lat = [("lat", "", j, -90 + j * lat_iv) for j in range(int(180 / lat_iv + 1e-9) + 1)]
        n = int(360 / lon_iv + 1e-9)
        self.lon = [("lon", "up", j, j * lon_iv) for j in range(1, n + 1)]
        self.lon += [("lon", "down", j, 360 - j * lon_iv) for j in range(0, n + 1)]
        self.vlat = [x[3] for x in self.lat]
        self.slon = sorted(self.lon, key=lambda x: x[3])
        self.vlon = [x[3] for x in self.slon]

    def lats(self, x, y):
        return self.lat[bisect.bisect_left(self.vlat, x):bisect.bisect_right(self.vlat, y)]

    def lons(self, x, y):
        """Meridians from x east to y, 0 <= y - x < 360, x anywhere."""
        t = 360 * math.floor(x / 360)
        x, y = x - t, y - t
        r = self.slon[bisect.bisect_left(self.vlon, x):bisect.bisect_right(self.vlon, y)]
        if y >= 360:
            r = r + self.slon[:bisect.bisect_right(self.vlon, y - 360)]
        if x == 0:
            r = r + [z for z in self.slon if z[3] == 360]
        return r

    def nearest_lat(self, x, n=2):
        k = bisect.bisect_left(self.vlat, x)
        return self.lat[max(0, k - n):k + n]

    def nearest_lon(self, x, fam, n=2):
        x %= 360
        k = bisect.bisect_left(self.vlon, x)
        m = len(self.slon)
        return [z for z in (self.slon[(k + d) % m] for d in range(-2 * n, 2 * n)) if z[1] == fam]


class Ortho:
    """Where points lie in an orthographic map (used to find witnesses only)."""
    def __init__(self, b, p, samples, lines_):
        f = {k: float(v) for k, v in p.items() if k not in ("centre", "kmpp", "samples", "lines")}
        polar = abs(f["obsLat"]) == 90
        self.b, pa = b, math.radians((180 if f["obsLat"] > 0 else 0) if polar else f["pa"])
        lo = math.radians((-1 if b["pro"] else 1) * (0 if polar else f["obsLon"]))
        la = math.radians(f["obsLat"])
        self.o = (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))
        r = (-math.sin(lo), math.cos(lo), 0.0)
        o = self.o
        u = (o[1] * r[2] - o[2] * r[1], o[2] * r[0] - o[0] * r[2], o[0] * r[1] - o[1] * r[0])
        c, s = math.cos(pa), math.sin(pa)
        self.x = tuple(c * a - s * d for a, d in zip(r, u))
        self.z = tuple(s * a + c * d for a, d in zip(r, u))
        self.q = float(p["kmpp"]) if p["kmpp"] else 2 * b["eq"] / (.9 * min(samples, lines_))
        self.c = (0, 0)
        if p["centre"] == "pixel":
            self.c = f["cs"], f["cl"]
        elif p["centre"] == "latlon":
            g = self.at(f["clat"], f["clon"])
            self.c = samples / 2 - g[0], lines_ / 2 - g[1]
        else:
            self.c = samples / 2, lines_ / 2

    def at(self, lat, lon):
        b = self.b
        la, lo = math.radians(lat), math.radians(-lon if b["pro"] else lon)
        r = b["eq"] * b["pol"] / math.hypot(b["pol"] * math.cos(la), b["eq"] * math.sin(la))
        v = (r * math.cos(la) * math.cos(lo), r * math.cos(la) * math.sin(lo), r * math.sin(la))
        n = v[0] / b["eq"] ** 2, v[1] / b["eq"] ** 2, v[2] / b["pol"] ** 2
        face = sum(a * d for a, d in zip(n, self.o)) / math.sqrt(sum(a * a for a in n))
        return (self.c[0] + sum(a * d for a, d in zip(v, self.x)) / self.q,
                self.c[1] + sum(a * d for a, d in zip(v, self.z)) / self.q, face)


def record(kind, g, lat_iv, lon_iv, grid_text, config, seed):
    b, samples, lines_ = g["b"], g["s"], g["l"]
    text = map_text("m.fits", proj.body_text(b), g["type"], g["opts"], samples, lines_, list(PLANE_LATLON),
                    dtype="DOUBLE", grid=grid_text)
    p = dict(g["p"], samples=samples, lines=lines_)
    gr = kind == "simple" and p["graphic"]
    L = Lines(lat_iv, lon_iv)

    def crossings(lat, lon):
        """(line, lat, lon, k, i) where lines pass between neighbouring pixel centres."""
        out = []
        kl = [graphic(b, x) if gr else x for x in lat]
        for k in range(lines_):
            for i in range(samples):
                a = k * samples + i
                for dk, di in ((0, 1), (1, 0)):
                    if k + dk >= lines_ or i + di >= samples:
                        continue
                    c = a + dk * samples + di
                    if math.isnan(lat[a]) or math.isnan(lat[c]):
                        continue
                    dlon = sdiff(lon[c], lon[a])
                    x, y = kl[a], kl[c]
                    if x != y:
                        for ln in L.lats(min(x, y), max(x, y)):
                            t = (ln[3] - x) / (y - x)
                            out.append((ln, centric(b, ln[3]) if gr else ln[3], lon[a] + t * dlon,
                                        k + dk * (t > .5), i + di * (t > .5), "col" if dk else "row", k + dk * t, i + di * t))
                    if dlon and abs(dlon) < 120:
                        for ln in L.lons(lon[a] + min(0, dlon), lon[a] + max(0, dlon)):
                            t = sdiff(ln[3], lon[a]) / dlon
                            if 0 <= t <= 1:
                                out.append((ln, lat[a] + t * (lat[c] - lat[a]), ln[3] % 360,
                                            k + dk * (t > .5), i + di * (t > .5), "col" if dk else "row", k + dk * t, i + di * t))
        return out

    def witnesses(lat, lon, white, cross):
        near = {}
        for c in cross:
            near.setdefault((c[3], c[4]), []).append(c)
        res, left = {}, []
        o = Ortho(b, p, samples, lines_) if kind == "ortho" else None
        for k, i in white:
            a = k * samples + i
            cand = []
            for dk in (-1, 0, 1):
                for di in (-1, 0, 1):
                    for c in near.get((k + dk, i + di), ()):
                        cand.append((abs(dk) + abs(di), c[0], c[1], c[2]))
            pts = []
            for dk in (-1, 0, 1):
                for di in (-1, 0, 1):
                    if 0 <= k + dk < lines_ and 0 <= i + di < samples:
                        c = a + dk * samples + di
                        pts.append((.5 + abs(dk) + abs(di), lat[c], lon[c]))
            for far, la, lo in pts:
                if math.isnan(la):
                    continue
                x = graphic(b, la) if gr else la
                for ln in L.nearest_lat(x):
                    cand.append((far, ln, centric(b, ln[3]) if gr else ln[3], lo))
                for fam in ("up", "down"):
                    for ln in L.nearest_lon(lo, fam):
                        cand.append((far, ln, la, ln[3] % 360))
            if kind == "ortho":
                # ranked by distance; only those that are near
                def rank(c):
                    x, y, f = o.at(c[2], c[3])
                    return math.hypot(x - i - .5, y - k - .5) + (10 if f < -.001 else 0)
                cand = [(rank(c),) + c[1:] for c in cand]
                cand = [c for c in cand if c[0] < 1.415]
            cand.sort(key=lambda c: c[0])
            for fam in ("up", "down"):
                if not any(c[1][1] in ("", fam) for c in cand):
                    left.append((k, i))
                    break
            res[k, i] = cand
        if kind == "ortho" and left:
            # the limb: search along all lines
            todo = {}
            for k, i in left:
                for dk in (-1, 0, 1):
                    for di in (-1, 0, 1):
                        todo.setdefault((k + dk, i + di), []).append((k, i))
            m = int(min(40000, max(1500, 4 * 6.3 * b["eq"] / o.q)))
            for ln in L.lat + L.lon:
                for n in range(m):
                    la, lo = (ln[3], 360 * n / m) if ln[0] == "lat" else (180 * n / m - 90, ln[3] % 360)
                    x, y, f = o.at(la, lo)
                    for k, i in todo.get((math.floor(y), math.floor(x)), ()):
                        d = math.hypot(x - i - .5, y - k - .5)
                        if d < 1.415 and f > -.001:
                            res[k, i].append((d, ln, la, lo))
        return res

    def rec(ctx):
        rng = random.Random("grid%d" % seed)
        with Sandbox() as s:
            s.put("in.marc", text)
            r = s.marc(ctx.marc, ["in.marc"], config=config)
            ev = []
            try:
                h = r.fits("m.fits")
                lat, lon = h[0].planes()
                g = h[1]
                px = g.planes()[0]
                ok = r.rc == 0 and len(h) == 2 and g.bitpix == 8
                ev = [dict(op="grid", ok=ok, samples=g.naxes[0], lines=g.naxes[1],
                           others=sum(x not in (0, 255) for x in px))]
                if ok and g.naxes[:2] == [samples, lines_]:
                    white = [(a // samples, a % samples) for a in range(len(px)) if px[a]]
                    ws = set(white)
                    cross = crossings(lat, lon)
                    if len(white) > 150:
                        white = rng.sample(white, 150)
                    res = witnesses(lat, lon, white, cross)
                    for k, i in white:
                        c = sorted(res[k, i], key=lambda c: c[0])
                        w = []
                        for fam in ("up", "down"):
                            w += [x for x in c if x[1][1] in ("", fam)][:10]
                        ev.append(dict(op="white", k=k, i=i,
                                       w=[dict(what=x[1][0], fam=x[1][1], j=x[1][2], lat=num(x[2]), lon=num(x[3])) for x in w]))
                    inner = [c for c in cross if 0 < c[3] < lines_ - 1 and 0 < c[4] < samples - 1]
                    if len(inner) > 200:
                        inner = rng.sample(inner, 200)
                    course = {}
                    for c in cross:
                        course.setdefault((c[0], c[5], c[3] if c[5] == "row" else c[4]), []).append(c)
                    for ln, la, lo, k, i, along, y0, x0 in inner:
                        # the line in the rows (columns) before and after, where it runs steeply (flatly)
                        beside = []
                        for d in (-1, 1):
                            near = course.get((ln, along, (k if along == "row" else i) + d), ())
                            near = [c for c in near if abs(c[7] - x0 if along == "row" else c[6] - y0) < 1]
                            beside += [[num(c[1]), num(c[2])] for c in near[:1]]
                        ev.append(dict(op="probe", k=k, i=i, what=ln[0], fam=ln[1], j=ln[2], lat=num(la), lon=num(lo), along=along, beside=beside,
                                       white=[[y, x] for y in range(k - 2, k + 3) for x in range(i - 2, i + 3)
                                              if (y, x) in ws]))
            except (fits.FitsError, KeyError, IndexError, ValueError, OSError):
                ev = [dict(op="grid", ok=False, samples=0, lines=0, others=0)]
            return dict(cfg=dict(proj=kind, body=proj.spec_body(b), p=p, latIv=num(lat_iv), lonIv=num(lon_iv)), ev=ev,
                        _input=dict(text=text, config=config, err=r.err[-400:]), _kind=kind)
    return rec


def scenario(rng, n):
    kind = ["simple", "mercator", "polar", "ortho", "ortho", "polar"][n % 6]
    size = rng.choice([(24, 24), (30, 20), (17, 29), (36, 18), (40, 40), (9, 9), (45, 12), (3, 3), (1, 1), (2, 5)])
    if rng.random() < .75:
        size = rng.choice([(90, 90), (120, 60), (61, 111), (rng.randint(40, 130), rng.randint(40, 130))])
    g = capture(kind, rng, n // 6, size)
    if kind == "ortho" and g["p"]["kmpp"] and rng.random() < .3:     # a small part of the body
        q = num(float("%.7g" % (float(g["p"]["kmpp"]) * rng.choice([.3, .1, .03]))))
        g["opts"] = g["opts"].replace("KM_PER_PIXEL: %r" % float(g["p"]["kmpp"]), "KM_PER_PIXEL: " + q)
        g["p"] = dict(g["p"], kmpp=q)
    la = lo = 10
    config = None
    if rng.random() < .3:
        la, lo = rng.choice(IVS), rng.choice(IVS)
        config = "LAT_GRID_INTERVAL: %r\nLON_GRID_INTERVAL: %r\n" % (la, lo)
        if rng.random() < .3:
            lo = la
            config = "GRID_INTERVAL: %r\n" % la
    t = "GRID: YES\n"
    r = rng.random()
    if r < .3:
        la = lo = rng.choice(IVS)
        t += "GRID_INTERVAL: %r\n" % la
    elif r < .7:
        o = []
        if rng.random() < .7:
            la = rng.choice(IVS)
            o.append("LAT_GRID_INTERVAL: %r\n" % la)
        if rng.random() < .7:
            lo = rng.choice(IVS)
            o.append("LON_GRID_INTERVAL: %r\n" % lo)
        rng.shuffle(o)
        t += "".join(o)
    return record(kind, g, la, lo, t, config, n)


def corrupt(s, rng):
    for e in s["ev"]:
        if e["op"] == "grid":
            e["samples"] += 1
            return s


def plan(rng, tier):
    n = 210 if tier == "quick" else 3000
    recs = [("grid-%d" % i, scenario(rng, i)) for i in range(n)]
    return dict(batches=[Batch("GridTrace", recs, corrupt=corrupt)],
                rule="random maps of every projection with grids of many intervals, given or configured")
