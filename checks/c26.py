"""C26: a statement out of place is reported with its file and line."""
import re
from vlib.check import Batch
from vlib.marc import Sandbox
from . import inputs as I
from .c03 import walk, usable

NAMES = ["a.marc", "in", "two words", "sub/dir.marc", "x:y.marc", "caf\u00e9"]
# what is left out spoils the line after
WRONG = [w for w in I.WRONG_WORDS if not w.endswith("=") and w not in ("?LATITUDE", "?MU", "?OPTIONS", "?XCOMMENT")]
CONFIGURES = ("GRID_INTERVAL", "LAT_GRID_INTERVAL", "LON_GRID_INTERVAL", "DATA_M", "NIBBLE")
PLACE = re.compile(r"\[error\] (.*?):(\d+):\d+: ")


def sound(syms):
    """Without statements whose values are at fault before the place that is out of order."""
    out, kind = [], ""
    for j, s in enumerate(syms):
        if s == "MAP":
            kind = ""
        if s.startswith("DATA_TYPE="):
            kind = s[10:]
        if s == "DATA_BLANK" and kind not in ("BYTE", "SHORT", "LONG", "LONGLONG"):
            continue
        mine = syms[j:]
        if "MAP" in mine[1:]:
            mine = mine[:mine.index("MAP", 1)]
        if s == "PLANES" and "PLANE" not in mine:
            continue
        out.append(s)
    return out


def scenario(seed, files, kind, plain):
    """files: [(name, statements)]"""
    ws = [(n, I.write("%s-%d" % (seed, j), syms, plain=plain)) for j, (n, syms) in enumerate(files)]
    ev, before = [], 0
    for n, w in ws:
        ev.append(dict(op="file", name=n, before=before))
        ev += [dict(op="say", sym=e["sym"], line=l) for e, l in zip(w.ev, w.at)]
        before = len(w.text)

    def rec(ctx):
        with Sandbox() as s:
            s.put("img.img", I.IMG)
            s.put("flat.img", I.FLAT)
            for n, w in ws:
                s.put(n, ("\n".join(w.text) + "\n").encode("latin-1", "replace"))
            r = s.marc(ctx.marc, [n for n, _ in files])
            out = (r.out + "\n" + r.err).encode("latin-1").decode("utf-8", "replace")
            places = [[m.group(1), int(m.group(2))] for m in PLACE.finditer(out)]
            return dict(cfg=dict(kind=kind), ev=ev + [dict(op="end", lines=before, ok=r.rc == 0, places=places)], _kind=kind,
                        _input=dict(texts={n: "\n".join(w.text) for n, w in ws}, status=r.rc, out=out[-600:]))
    return rec


def corrupt(s, rng):
    e = s["ev"][-1]
    if e["places"]:
        e["places"][0][1] += rng.choice([-2, 2, 5])
    else:
        e["places"] = [["in", 1]]
    return s


def plan(rng, tier):
    n = 700 if tier == "quick" else 12000
    pos, start, model = I.positions()
    ids = sorted((i for i in pos if pos[i]["maps"] <= 1), key=lambda i: (len(pos[i]["said"]), pos[i]["said"]))
    alphabet = sorted({k for p in pos.values() for k in p["next"]}) + WRONG
    recs = []
    for j in range(n):
        r = rng.random()
        if r < .15:         # the file ends too soon
            kind = "incomplete"
            syms = list(pos[rng.choice([i for i in ids if not pos[i]["done"] and pos[i]["said"]])]["said"])
        elif r < .65:       # any position of the grammar, any statement that may not follow
            kind = "misplaced"
            p = pos[rng.choice(ids)]
            syms = p["said"] + [rng.choice([k for k in alphabet if k not in p["next"]])] + p["comp"]
        elif r < .93:       # a long file with one statement moved, doubled or left out
            kind = "disturbed"
            syms = usable(walk(rng, pos, start))
            for _ in range(40):
                if 5 < len(syms) < 70:
                    break
                syms = usable(walk(rng, pos, start))
            k = rng.randrange(len(syms))
            x = rng.random()
            if x < .3:
                syms.insert(rng.randrange(len(syms)), syms.pop(k))
            elif x < .6:
                del syms[k]
            elif x < .8:
                syms.insert(k, syms[k])
            else:
                syms.insert(k, rng.choice(WRONG))
        else:
            kind = "sound"
            syms = usable(walk(rng, pos, start))
        if syms and syms[0].startswith(CONFIGURES):
            syms.insert(0, "BODY")      # these may start a configuration
        names = rng.sample(NAMES, 3)
        files = [(names[0], sound(syms))]
        good = lambda: sound(usable(pos[rng.choice([i for i in ids if pos[i]["done"]])]["said"]))
        while len(files) < 3 and rng.random() < .3:
            files.insert(rng.randint(0, len(files)), (names[len(files)], good()))
        recs.append(("%s-%d" % (kind, j), scenario("%d" % rng.getrandbits(40), files, kind, rng.random() < .3)))
    return dict(models=[dict(module="LocateMC", cfg="LocateMC.cfg", cover=("Open", "Say", "Close"))], model_stats=[model],
                batches=[Batch("LocateTrace", recs, corrupt=corrupt)],
                rule="every kind of statement at positions of the grammar where it may not stand; long files with a statement moved, doubled, "
                     "left out or unknown; files that end too soon; up to three files in a run")
