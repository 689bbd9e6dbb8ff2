"""C08: the structure of map files."""
from vlib.check import Batch
from vlib.fits import num
from . import proj, mapfile as F, maps


def scenario(rng, n):
    b = proj.pick_body(rng)
    dtype = rng.choice(maps.TYPES)
    user = dict(type=dtype)
    blank = None
    if dtype in maps.LIMITS and rng.random() < .5:
        lo, hi = maps.LIMITS[dtype]
        blank = rng.choice([0, 0, 200, lo, hi])
        user["blank"] = str(blank)
    head, req = "", dict(comments=[], xcomments=[], grid=False)
    if rng.random() < .6:
        a = F.words(rng)
        if F.quoted_len(a) <= 68:
            head += "AUTHOR:%s%s\n" % (rng.choice(["", " ", "   "]), a)
            user["author"] = a
    if rng.random() < .6:
        a = F.words(rng)
        if F.quoted_len(a) <= 68:
            head += "ORIGIN:%s%s\n" % (rng.choice(["", " ", "\t"]), a)
            user["origin"] = a
    for kw, k in (("COMMENT", "comments"), ("XCOMMENT", "xcomments")):
        for _ in range(rng.choice([0, 0, 1, 2, 3, 7, 40]) if rng.random() < .9 else 0):
            c = F.comment(rng)
            head += "%s:%s%s\n" % (kw, " " if len(c) < 70 and rng.random() < .8 else "", c)
            req[k] += F.cards(c)
    grid = None
    r = rng.random()
    if r < .55:
        req["grid"] = True
        grid = "GRID: YES\n" + rng.choice(["", "", "GRID_INTERVAL: 30\n", "LAT_GRID_INTERVAL: 15\nLON_GRID_INTERVAL: 45\n"])
    elif r < .7:
        grid = "GRID: NO\n"
    ptype = rng.choice(list(F.NAMES))
    samples, lines_ = rng.choice([(rng.randint(2, 20), rng.randint(2, 20)), (1, rng.randint(1, 5)), (rng.randint(1, 9), 1),
                                  (rng.randint(30, 70), rng.randint(30, 60))])
    opts, front = "", False
    if ptype == "P_STEREO":
        opts = "POLE: N\n"
    elif ptype == "ORTHO":
        opts = "SUB_OBSERV_LAT: 0\nSUB_OBSERV_LON: 100\n"
        front = min(samples, lines_) >= 8
    elif ptype == "SIMPLE_C":
        opts = "LO_LAT: -20\nHI_LAT: 20\nLO_LON: 85\nHI_LON: 115\n"
        front = True
    planes, files = [], {}
    for j in range(rng.choice([1, 1, 2, 3, 5, 12])):
        if rng.random() < .7:
            mark = j + 1
            t, f, x = F.image(rng, b, "i%d.fits" % j, mark)
            files.update(x)
            planes.append((t, dict(kind="images", srcs=[f], mark=num(float(mark)) if front else "")))
        else:
            planes.append((rng.choice(["LATITUDE: CENTRIC\n", "LATITUDE: GRAPHIC\n"]),
                           dict(kind="computed", srcs=[F.facts(unit="deg")], mark="")))
    return F.record(b, ptype, opts, samples, lines_, planes, F.facts(**user), head, "", dtype, blank, grid, req, files,
                    "%s-%s%s" % (ptype, dtype, "-grid" if req["grid"] else ""), numbered=rng.random() < .4)


def plan(rng, tier):
    n = 400 if tier == "quick" else 6000
    return dict(batches=[Batch("FileTrace", [("file-%d" % i, scenario(rng, i)) for i in range(n)], corrupt=F.corrupt)],
                rule="random data types, sizes, numbers of planes, comments short and long, grids, header texts")
