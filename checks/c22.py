"""C22: a map that could not be written in full is never reported as made."""
from vlib.check import Batch
from . import session as S


def base(rng, big=False):
    files, maps, text = {}, [], ""
    names = ["m.fits", "n.fits"]
    for j in range(rng.choice([1, 1, 2])):
        t = "t%d" % (j + 1)
        nm = rng.choice(names)
        # beyond what the FITS library buffers (115200 bytes), or well below
        size = (rng.randint(60, 160), rng.randint(100, 160)) if big or rng.random() < .35 else None
        x = S.good_entry(rng, nm, t, files, sizes=size)
        if size and rng.random() < .7:
            x = x.replace("GRID: YES\n", "")
        text += x
        maps.append(dict(id=t, name=nm, able=True, _text=x))
    old = {k: S.OLD["text"] for k in names if rng.random() < .3}
    disk = {k: "old" if k in old else "" for k in names}
    return text, maps, files, old, disk


def faulty(rng, n):
    text, maps, files, old, disk = base(rng)
    kind = rng.choice(["write", "write", "write", "flush", "close", "open", "any", "any"])
    nth = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, rng.randint(7, 40)])
    if kind in ("close", "open"):
        nth = rng.randint(1, 2)
    cfg = dict(fragile=False, config="none", inputs=[dict(state="good", maps=maps)], disk=disk)
    return S.record([("in.marc", text)], cfg, files, old, fault=(kind, nth, rng.choice([0, 1, 1])), kind="fault-" + kind)


def limited(rng, n):
    """The kernel refuses to let the file grow beyond a size."""
    text, maps, files, old, disk = base(rng)
    limit = rng.choice([0, 1, 80, 2879, 2880, 2881, 4096, 5760, 8640, 8191, 11520, 14400, 20000, 100000, 115200, 120000,
                        rng.randint(1, 20000), rng.randint(1, 400000)])
    cfg = dict(fragile=True, config="none", inputs=[dict(state="good", maps=maps)], disk=disk)
    return S.record([("in.marc", text)], cfg, files, old, limit=limit, kind="limit")


def unable(rng, n):
    """Sources that cannot be read, directories that are not there."""
    files, maps, text = {}, [], ""
    names = ["m.fits", "n.fits"]
    for j in range(rng.choice([1, 2, 3])):
        t = "t%d" % (j + 1)
        nm, able = rng.choice(names), True
        r = rng.random()
        if r < .5:
            x, _ = S.unable_entry(rng, nm, t, files)
            able = False
        elif r < .6:
            nm, able = "nodir/%s.fits" % t, False
            x = S.good_entry(rng, nm, t, files)
        else:
            x = S.good_entry(rng, nm, t, files)
        text += x
        maps.append(dict(id=t, name=nm, able=able, _text=x))
    disk = {k: "" for k in set(names) | {m["name"] for m in maps}}
    cfg = dict(fragile=False, config="none", inputs=[dict(state="good", maps=maps)], disk=disk)
    return S.record([("in.marc", text)], cfg, files, {}, kind="unable")


def unreadable(rng, n):
    """A source that is there but cannot be opened, or stops being readable."""
    text, maps, files, old, disk = base(rng)
    t = "t%d" % (len(maps) + 1)
    data = [rng.randint(1, 200) for _ in range(6400)]
    files[t + ".img"] = S.fits.make(16, 80, 80, data)
    flat = rng.random() < .4
    geom = S.GEOM
    if flat:
        files[t + ".flat"] = S.fits.make(16, 80, 80, data)
        geom = geom.replace("SUB_OBSERV_LAT: 0", "FLAT_FIELD: %s.flat\nSUB_OBSERV_LAT: 0" % t, 1)
    x = S.map_text("m.fits", S.B1, "SIMPLE_C", "", 6, 5, ["LATITUDE: CENTRIC\n", "IMAGE: %s.img\n" % t + geom][rng.randint(0, 1):],
                   dtype="FLOAT", head="AUTHOR: %s\n" % t)
    m = dict(id=t, name="m.fits", able=True, _text=x)
    k = rng.choice([0, len(maps)])
    maps.insert(k, m)
    text = x + text if k == 0 else text + x
    src = t + (".flat" if flat and rng.random() < .6 else ".img")
    env = {"SHIM_DENY": "@/" + src} if rng.random() < .3 else {"SHIM_READ": "%d:%s" % (rng.choice([1, 2, 3, 4, 5, 6, 8]), src)}
    cfg = dict(fragile=False, config="none", inputs=[dict(state="good", maps=maps)], disk=disk)
    if "SHIM_DENY" in env:
        env["SHIM_DENY"] = src
    return S.record([("in.marc", text)], cfg, files, old, kind="unreadable-" + sorted(env)[0][5:].lower(), env=env,
                    sources={src: t})


def plan(rng, tier):
    n = 260 if tier == "quick" else 4000
    r = [("fault-%d" % i, faulty(rng, i)) for i in range(n)]
    r += [("limit-%d" % i, limited(rng, i)) for i in range(n // 2)]
    r += [("unable-%d" % i, unable(rng, i)) for i in range(n // 2)]
    r += [("unreadable-%d" % i, unreadable(rng, i)) for i in range(n // 4)]
    return dict(models=[dict(module="SessionMC", cfg="SessionMC.cfg",
                             cover=("ReadConfig", "ReadInput", "StartMaps", "Refuse", "MakeMap", "Impossible", "Fault", "Finish",
                                    "GiveUp"))],
                batches=[Batch("SessionTrace", r, corrupt=S.corrupt)],
                rule="the n-th write, flush, close or creation of a map file fails, once or from then on; file size limits; "
                     "sources missing, malformed, truncated, of the wrong size, closed to the reader, or failing at the n-th read")
