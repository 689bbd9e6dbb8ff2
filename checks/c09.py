"""C09: what the user says wins, sources fill the gaps."""
import random, subprocess
from vlib.check import Batch
from vlib.fits import num
from . import proj, mapfile as F, maps

STRINGS = ["author", "unit", "instrument", "object", "observer", "origin", "reference", "telescope"]
REALS = ["scale", "offset", "equinox"]
ALL = STRINGS + REALS + ["blank"]
# as long as a card allows; punctuation
LONGER = ["A value that is exactly as long as one card of a FITS header allows", "Goddard's / JPL", "a = 'b' & \"c\""]
LONGER[0] = LONGER[0].ljust(67, "!")   # the input line begins with a blank
NAME = {v: k for k, v in F.BITPIX.items()}
NAME[0] = ""


def value(rng, k):
    if k in STRINGS:
        return rng.choice(["alpha", "beta", "gamma"])
    if k == "blank":
        return str(rng.choice([0, 7, -5, 2 ** 40]))
    return num(rng.choice([0.0, 1.0, 2.5, -3.0, 1950.0, 2000.0]))


def merging(rng, n):
    """A user's set completed from sources gathered in one or two levels."""
    cmds, cfg_ev = [], []
    ids = [0]

    def new(user):
        ids[0] += 1
        i = ids[0]
        cmds.append("new %d %d" % (i, 0 if user else rng.randint(1, 5)))
        cfg_ev.append(dict(op="new", id=i, user=user))
        return i

    def fill(i, p, agree=None):
        if rng.random() < p:
            t = rng.choice(list(F.BITPIX))
            cmds.append("type %d %d" % (i, F.BITPIX[t]))
            cfg_ev.append(dict(op="type", id=i, val=t))
        for k in ALL:
            if rng.random() < p:
                v = agree[k] if agree else value(rng, k)
                cmds.append("set %d %s %s" % (i, k, v))
                cfg_ev.append(dict(op="set", id=i, key=k, val=v))
        for k in ("comment", "xcomment"):
            if rng.random() < p:
                for _ in range(rng.randint(1, 2)):
                    v = "c%d" % rng.randrange(1000)
                    cmds.append("%s %d %s" % (k, i, v))
                    cfg_ev.append(dict(op="comment", id=i, key=k, val=v))

    def merge(a, c):
        cmds.append("merge %d %d" % (a, c))
        cfg_ev.append(dict(op="merge", to=a, **{"from": c}))
        if rng.random() < .3:
            get(a)

    def get(a):
        cmds.append("get %d" % a)
        cfg_ev.append(dict(op="get", id=a))

    agree = {k: value(rng, k) for k in ALL} if rng.random() < .6 else None
    u = new(True)
    fill(u, rng.choice([0, .3, .5, .8]))
    acc = new(rng.random() < .7)
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .4:
            sub = new(rng.random() < .5)
            for _ in range(rng.randint(1, 3)):
                s = new(False)
                fill(s, rng.choice([.2, .5, .9]), agree)
                merge(sub, s)
            merge(acc, sub)
        else:
            s = new(False)
            fill(s, rng.choice([.2, .5, .9]), agree)
            merge(acc, s)
    get(acc)
    merge(u, acc)
    get(u)

    def rec(ctx):
        r = subprocess.run([ctx.exe("facts")], input="\n".join(cmds) + "\n", text=True, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=60)
        out = [x[1:].split(" ", 1) for x in r.stdout.splitlines() if x.startswith("@")]
        ev, pos = [], 0
        try:
            for e in cfg_ev:
                e = dict(e)
                if e["op"] in ("type", "merge"):
                    e["ok"] = out[pos][1] == "1"
                    pos += 1
                elif e["op"] == "get":
                    e.update(vals={}, comments=[], xcomments=[], type="")
                    while out[pos][0] != "end":
                        k, v = out[pos]
                        if k == "type":
                            e["type"] = NAME[int(v)]
                        elif k in ("comment", "xcomment"):
                            e[k + "s"].append(v)
                        else:
                            e["vals"][k] = num(float(v)) if k in REALS and v else v
                        pos += 1
                    pos += 1
                ev.append(e)
        except (IndexError, ValueError):
            ev.append(dict(op="crash"))
        return dict(cfg=dict(keys=ALL, n=ids[0]), ev=ev, _input=cmds, _kind="merging")
    return rec


def spoil(s, rng):
    g = [e for e in s["ev"] if e["op"] == "get"]
    if not g:
        return None
    e = g[-1]
    k = rng.choice(ALL)
    e["vals"][k] = e["vals"][k] + "1"
    return s


def program(rng, n):
    b = proj.pick_body(rng)
    dtype = rng.choice(maps.TYPES) if rng.random() < .35 else None
    user = dict(type=dtype or "")
    blank = None
    if dtype in maps.LIMITS and rng.random() < .5:
        blank = rng.choice([0, 99, 77])
        user["blank"] = str(blank)
    head = ""
    for k in ("author", "origin"):
        if rng.random() < .4:
            user[k] = rng.choice(["user " + k] * 6 + LONGER)
            head += "%s: %s\n" % (k.upper(), user[k])
    extra = ""
    if rng.random() < .4:
        v = rng.choice([2.5, -7.0, 0.0, 1e5])
        user["offset"] = num(v)
        extra += "DATA_OFFSET: %r\n" % v
    if rng.random() < .4:
        v = rng.choice([2.0, 0.0625, 1.0])
        user["scale"] = num(v)
        extra += "DATA_SCALE: %r\n" % v
    planes, files = [], {}
    pool = rng.choice([list(F.BITPIX), ["BYTE", "SHORT", "LONG"], ["SHORT", "FLOAT"], ["DOUBLE", "LONGLONG"]])
    for j in range(rng.choice([1, 1, 2, 3, 4])):
        r = rng.random()
        if r < .85:
            mark = j + 1
            t, srcs = "", []
            for i in range(rng.choice([1, 1, 2, 3])):
                ex = {}
                for k in ("author", "origin", "unit"):
                    if rng.random() < .35:
                        ex[k] = rng.choice(["src %s %d" % (k, rng.randint(1, 2))] * 6 + LONGER)
                if rng.random() < .4:
                    ex["blank"] = rng.choice([50, 60, 0])
                ex["other"] = rng.random() < .3
                x, f, y = F.image(rng, b, "i%d_%d.fits" % (j, i), mark, typ=rng.choice(pool), extra=ex)
                t += x
                srcs.append(f)
                files.update(y)
            planes.append((t, dict(kind="images", srcs=srcs, mark=num(float(mark)))))
        else:
            planes.append((rng.choice(["LATITUDE: CENTRIC\n", "LONGITUDE\n"]) if dtype != "BYTE" and "BYTE" not in pool
                           else "LATITUDE: CENTRIC\n", dict(kind="computed", srcs=[F.facts(unit="deg")], mark="")))
    opts = "LO_LAT: -20\nHI_LAT: 20\nLO_LON: 85\nHI_LON: 115\n"
    if rng.random() < .3:
        opts = "AVERAGING: %s\n" % rng.choice(["NONE", "UNWEIGHTED", "WEIGHTED"]) + opts
    return F.record(b, "SIMPLE_C", opts, rng.randint(2, 9), rng.randint(2, 9), planes, F.facts(**user), head, extra,
                    dtype, blank, None, dict(comments=[], xcomments=[], grid=False), files,
                    "program-" + ("typed" if dtype else "open"), numbered=rng.random() < .3)


def plan(rng, tier):
    n = 300 if tier == "quick" else 5000
    return dict(harnesses=("facts",),
                models=[dict(module="FactsMC", cfg="FactsMC.cfg", cover=("Source", "EndPlane", "Finish"))],
                batches=[Batch("FileTrace", [("program-%d" % i, program(rng, i)) for i in range(n)], corrupt=F.corrupt),
                         Batch("FactsTrace", [("merge-%d" % i, merging(rng, i)) for i in range(n)], corrupt=spoil)],
                rule="sets of facts merged in one or two levels; programs with one to four planes of one to three images "
                     "whose files state types, blanks, authors, units")
