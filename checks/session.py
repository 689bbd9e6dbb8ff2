"""Recording whole runs of the program for spec/SessionTrace.tla (C01 C22)."""
import hashlib, os, resource, signal
from vlib import fits
from vlib.marc import Sandbox, map_text, body

B1 = body(eq="71492", pol="66854")
GEOM = ("REMOVE_SKY: NO\nSAMPLE_CENTER: 4.5\nLINE_CENTER: 4.5\nSUB_OBSERV_LAT: 0\nSUB_OBSERV_LON: 100\nPOSITION_ANGLE: 0\n"
        "SUB_SOLAR_LAT: 0\nSUB_SOLAR_LON: 100\nRANGE: 7e6\nKM_PER_PIXEL: 18000\n")
OBS = "SUB_OBSERV_LAT: 10\nSUB_OBSERV_LON: 40\nRANGE: 1e6\n"
SUN = "SUB_SOLAR_LAT: -5\nSUB_SOLAR_LON: 70\n"
PLANES = ["LATITUDE: CENTRIC\n", "LATITUDE: GRAPHIC\n", "LONGITUDE\n", "MU:\n" + OBS, "MU0:\n" + SUN, "PHASE:\n" + OBS + SUN,
          "DATA_MIN: -20\nDATA_MAX: 35\nLATITUDE: CENTRIC\n"]


def fingerprint(path):
    """Digest of a complete, valid file without its dates; None for anything else."""
    try:
        hs = fits.read(path)
        h = hashlib.sha256()
        for x in hs:
            if not fits.checksum_ok(x):
                return None
            for c in x.cards:
                if c[:8].strip() not in ("DATE", "CHECKSUM", "DATASUM"):
                    h.update(c.encode("latin-1"))
            h.update(x.data)
        return h.hexdigest()[:20]
    except (fits.FitsError, OSError, KeyError, IndexError, ValueError):
        return None


def good_entry(rng, name, tag, files, sizes=None):
    samples, lines_ = sizes or (rng.randint(1, 12), rng.randint(1, 12))
    planes = [rng.choice(PLANES) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < .4:
        f = "%s.img" % tag
        files[f] = fits.make(16, 9, 9, [rng.randint(1, 200) for _ in range(81)])
        planes.append("IMAGE: %s\n" % f + GEOM)
    ptype = rng.choice(["SIMPLE_C", "MERCATOR", "P_STEREO", "ORTHO"])
    opts = {"P_STEREO": "POLE: N\n", "ORTHO": "SUB_OBSERV_LAT: 20\nSUB_OBSERV_LON: 30\n"}.get(ptype, "")
    return map_text(name, B1, ptype, opts, samples, lines_, planes, dtype=rng.choice(["SHORT", "LONG", "FLOAT", "DOUBLE"]),
                    grid="GRID: YES\n" if rng.random() < .4 else None, head="AUTHOR: %s\n" % tag,
                    nplanes=len(planes) if rng.random() < .3 else None)


def unable_entry(rng, name, tag, files):
    """(text, what) of an entry that follows the rules and asks for a map that cannot be made."""
    k = rng.choice(["bytelon", "noimage", "notfits", "notype", "truncated", "flatsize", "nibble", "onedim", "emptyimage",
                    "noflat", "secondimage", "secondplane", "tablefile"])
    f = tag + ".img"
    img = lambda extra="", name=f: "IMAGE: %s\n" % name + extra + GEOM
    dtype, planes = "SHORT", []
    data = fits.make(16, 9, 9, [rng.randint(1, 200) for _ in range(81)])
    if k == "bytelon":
        dtype, planes = "BYTE", ["LONGITUDE\n"]
    elif k == "noimage":
        planes = [img()]
    elif k == "notfits":
        files[f] = rng.choice([b"", b"hello\n", b"\0" * 2880, b"SIMPLE  = " + b"x" * 5000])
        planes = [img()]
    elif k == "emptyimage":
        files[f] = b""
        planes = [img()]
    elif k == "notype":
        dtype, planes = None, ["LATITUDE: CENTRIC\n"]
    elif k == "truncated":
        # a data unit of several blocks, cut within
        big = fits.make(-64, 40, 40, [float(j) for j in range(1600)])
        files[f] = big[:len(big) - rng.choice([2880, 5760, 9000, len(big) - 3000, 4000])]
        planes = [img()]
    elif k == "flatsize":
        files[f] = data
        files[f + "f"] = fits.make(16, 8, 9, [1] * 72)
        planes = [img().replace("SUB_OBSERV_LAT: 0", "FLAT_FIELD: %sf\nSUB_OBSERV_LAT: 0" % f, 1)]
    elif k == "noflat":
        files[f] = data
        planes = [img().replace("SUB_OBSERV_LAT: 0", "FLAT_FIELD: %sf\nSUB_OBSERV_LAT: 0" % f, 1)]
    elif k == "nibble":
        files[f] = data
        planes = [img("NIBBLE: %d\n" % rng.choice([5, 9, 10, 100]))]
    elif k == "onedim":
        files[f] = fits.make(16, 9, 1, [1] * 9)
        planes = [img()]
    elif k == "secondimage":
        files[f] = data
        planes = [img() + img(name=f + "x")]
    elif k == "secondplane":
        files[f] = data
        planes = [img(), rng.choice([img(name=f + "x"), "LATITUDE: CENTRIC\n" + ""])]
        if planes[1].startswith("LAT"):
            planes.append(img(name=f + "x"))
    elif k == "tablefile":
        # a primary header without an image
        files[f] = fits.header_only()
        planes = [img()]
    return map_text(name, B1, "SIMPLE_C", "", rng.randint(2, 6), rng.randint(2, 6), planes, dtype=dtype,
                    head="AUTHOR: %s\n" % tag, grid="GRID: YES\n" if rng.random() < .3 else None), k


SPOIL = ["syntax", "unknown", "truncate", "domain", "trailing", "order", "garbage", "duplicate"]


def spoil(rng, text):
    """Break the last entry of an input (or something after it)."""
    ls = text.rstrip("\n").split("\n")
    k = rng.choice(SPOIL)
    i = rng.randrange(len(ls))
    last = max(j for j, x in enumerate(ls) if x.startswith("MAP:"))
    if rng.random() < .6:
        i = rng.randrange(last, len(ls))
    if k == "syntax":
        j = max(j for j, x in enumerate(ls) if x.startswith("SAMPLES"))
        ls[j] = ls[j].replace(":", "", 1)
    elif k == "unknown":
        j = max(j for j, x in enumerate(ls) if x.startswith("SAMPLES"))
        ls.insert(j, "WIDTH: 3")
    elif k == "truncate":
        j = max(j for j, x in enumerate(ls) if x.startswith(("PLANE:", "LINES", "SAMPLES", "BODY")))
        ls = ls[:j]
        if ls and not ls[-1].startswith(("SAMPLES", "LINES", "ROTATION", "PLANE", "TYPE", "BODY", "AUTHOR", "MAP")):
            ls.append("PLANE:")
    elif k == "domain":
        j = max(j for j, x in enumerate(ls) if x.startswith("LINES"))
        ls[j] = "LINES: %s" % rng.choice(["0", "-3", "2.5e", "x", "1/0"])
    elif k == "trailing":
        ls.append(rng.choice(["PLANE", "MAP:", "}", "LATITUDE_TYPE:", "MAP: again.fits", "$"]))
    elif k == "order":
        j = max(j for j, x in enumerate(ls) if x.startswith("SAMPLES"))
        ls[j], ls[j + 1] = ls[j + 1], ls[j]
    elif k == "garbage":
        ls.insert(last, "\x01\x02 garbage")
    else:
        j = max(j for j, x in enumerate(ls) if x.startswith("SAMPLES"))
        ls.insert(j, ls[j])
    return "\n".join(ls) + "\n", k


OLD = {"text": b"some text\n", "fits": fits.make(16, 3, 3, [1] * 9), "empty": b""}


def survey(top, names):
    """Files below top other than those named, and what they hold."""
    out = {}
    for d, ds, fs in os.walk(top):
        if d == top:
            ds[:] = [x for x in ds if x not in ("xdg", "home")]
        for f in fs:
            p = os.path.join(d, f)
            n = os.path.relpath(p, top)
            if n not in names and n != "shim.log":
                out[n] = open(p, "rb").read()
    return out


def record(inputs, cfg, files, old, config=None, args=None, fault=None, limit=None, env=None, kind="run", missing=(), dirs=(),
           sources=None):
    """inputs: [(file name, text or None)]; cfg.inputs lists maps with their entry texts under "_text"."""
    entries, texts = {}, {}
    for i in cfg["inputs"]:
        for m in i["maps"]:
            entries[m["id"]] = m
            texts[m["id"]] = m.pop("_text")
    # a source file that turns out unreadable: the maps that use it cannot be made
    sources = sources or {}
    names = sorted(cfg["disk"])

    def rec(ctx):
        with Sandbox() as s:
            ref = {}
            for k, v in files.items():
                s.put(k, v)
            for d in dirs:
                os.makedirs(os.path.join(s.dir, d), exist_ok=True)
            for i, m in entries.items():
                if m["able"]:
                    s.put("ref.marc", texts[i])
                    s.marc(ctx.marc, ["ref.marc"], config=config if cfg["config"] == "good" else None)
                    p = os.path.join(s.dir, m["name"])
                    fp = fingerprint(p)
                    if fp:
                        ref.setdefault(fp, []).append((i, m["name"]))
                    if os.path.exists(p):
                        os.remove(p)
            for n, v in old.items():
                s.put(n, v)
            for n, t in inputs:
                if t is not None:
                    s.put(n, t)
            log = os.path.join(s.dir, "shim.log")
            e = dict(LD_PRELOAD=ctx.exe("shim.so"), SHIM_LOG=log)
            if fault:
                e["SHIM_FAULT"] = "%s:%d:%d" % fault
            e.update({k: v.replace("@", s.dir) for k, v in (env or {}).items()})

            before = survey(s.dir, names)

            def pre():
                if limit is not None:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            r = s.marc(ctx.marc, args or [n for n, _ in inputs], config=config, env=e, preexec=pre if limit is not None else None)
            ev = []
            if os.path.exists(log):
                for x in open(log, errors="replace").read().split("\n"):
                    op, _, n = x.partition(" ")
                    n = os.path.relpath(os.path.join(s.dir, n), s.dir) if n else ""
                    if op == "unread":
                        for m in entries.values():
                            if os.path.basename(n) in sources and "%s\n" % os.path.basename(n) in texts[m["id"]]:
                                m["able"] = False
                    if op in ("touch", "fault") and n in cfg["disk"] and (not ev or ev[-1] != dict(op=op, name=n)):
                        ev.append(dict(op=op, name=n))
            told = bool(r.err.strip()) or "[error]" in r.out or "[critical]" in r.out
            ev.append(dict(op="exit", ok=r.rc == 0, told=told and r.rc is not None and r.rc >= 0))
            # two entries may describe the same map
            last = {}
            for i in cfg["inputs"]:
                for m in i["maps"]:
                    last[m["name"]] = m["id"]
            for n in names:
                p = os.path.join(s.dir, n)
                if not os.path.exists(p):
                    is_ = ""
                else:
                    raw = open(p, "rb").read() if os.path.isfile(p) else None
                    if n in old and raw == old[n]:
                        is_ = "old"
                    else:
                        fp = fingerprint(p)
                        c = [i for i, nm in ref.get(fp, []) if nm == n]
                        is_ = last.get(n) if last.get(n) in c else (c[0] if c else "something else")
                ev.append(dict(op="disk", name=n, **{"is": is_}))
            after = survey(s.dir, names)
            ev.append(dict(op="rest", touched=sorted(n for n in set(before) | set(after) if before.get(n) != after.get(n))))
            return dict(cfg=cfg, ev=ev, _input=dict(inputs=dict(inputs), config=config, fault=fault, limit=limit, old=sorted(old),
                                                    status=r.rc, stdout=r.out[-500:], stderr=r.err[-500:]), _kind=kind)
    return rec


def corrupt(s, rng):
    e = [x for x in s["ev"] if x["op"] == "exit"][0]
    if e["ok"]:
        d = [x for x in s["ev"] if x["op"] == "disk"]
        if d and rng.random() < .5:
            x = rng.choice(d)
            x["is"] = "something else"
            return s
        e["ok"] = False
        e["told"] = False
    else:
        e["told"] = False
    return s
