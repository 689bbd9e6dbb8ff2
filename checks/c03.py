"""C03: an input file is accepted exactly when it follows the documented order and domains."""
from vlib.check import Batch
from . import inputs as I


PAIRED = ("LO_LAT", "HI_LAT", "DATA_MIN", "DATA_MAX", "EQ_RAD", "POL_RAD", "FLATTENING")


def walk(rng, pos, start):
    """A sentence of the grammar: a random walk over the positions TLC found."""
    at, said = start, []
    while True:
        p = pos[at]
        if p["done"] and (len(said) > 60 or rng.random() < .45 or not p["next"]):
            return said
        ks = sorted(p["next"])
        if len(said) > 70:
            return said + p["comp"]
        opt = [k for k in ks if k not in ("COMMENT", "XCOMMENT", "MAP", "IMAGE", "PLANE")]
        k = rng.choice(opt) if opt and rng.random() < .7 else rng.choice(ks)
        said.append(k)
        at = p["next"][k]


def usable(syms):
    """Give every entry a data type unless an image provides one; no BYTE with longitudes."""
    out, entry = [], []
    for s in syms + [None]:
        if s in (None, "MAP") and entry:
            if not any(x.startswith("DATA_TYPE") for x in entry) and "IMAGE" not in entry:
                at = [j for j, x in enumerate(entry) if x.startswith(("DATA_BLANK", "GRID", "TYPE="))]
                if at:
                    entry.insert(at[0], "DATA_TYPE=SHORT")
            out += entry
            entry = []
        entry.append(s)
    return out


def plan(rng, tier):
    quick = tier == "quick"
    pos, start, model = I.positions()
    ids = sorted(pos, key=lambda i: (len(pos[i]["said"]), pos[i]["said"]))
    alphabet = sorted({k for p in pos.values() for k in p["next"]}) + I.WRONG_WORDS
    recs, seen = [], set()

    def add(syms, kind, **kw):
        key = tuple(syms)
        if kind != "values" and key in seen:
            return
        seen.add(key)
        recs.append(("%s-%d" % (kind, len(recs)), I.record("%s-%d" % (kind, rng.getrandbits(40)), syms, kind, **kw)))

    # every step of the grammar, completed; the input ending at every position
    for i in ids:
        p = pos[i]
        if p["said"] and (p["maps"] <= 1 or len(p["said"]) < 20):
            add(p["said"], "end-here", bad=0)
        for k in sorted(p["next"]):
            add(usable(p["said"] + [k] + pos[p["next"][k]]["comp"]), "step", plain=rng.random() < .5)
    # every value of the tables, at every place for it
    places = {}
    for i in ids:
        p = pos[i]
        if p["maps"] > 1:
            continue
        ctx = [s for s in p["said"] if s.startswith("TYPE=") or s in ("IMAGE", "MU", "MU0", "PHASE", "PLANE")][-1:]
        for k in sorted(p["next"]):
            if k in I.DEFAULT or k in ("PLANES", "PLANE", "SAMPLES", "LINES", "DATA_BLANK"):
                places.setdefault((k, tuple(ctx), p["said"][-1] if k in PAIRED else ""), p["said"] + [k] + pos[p["next"][k]]["comp"])
    for key in sorted(places):
        k, syms = key[0], places[key]
        variants = [syms]
        if k == "DATA_BLANK":
            j = syms.index("DATA_BLANK")
            syms = [s for s in syms[:j] if not s.startswith("DATA_TYPE")] + syms[j:]
            j = syms.index("DATA_BLANK")
            variants = [syms[:j] + ["DATA_TYPE=" + x] + syms[j:] for x in sorted(I.BLANKS) if x] + [syms]
        if k == "PLANE":
            j = syms.index("SAMPLES")
            variants.append(syms[:j] + ["PLANES"] + syms[j:] if "PLANES" not in syms else [s for s in syms if s != "PLANES"])
        for v in variants:
            if k != "DATA_BLANK" or v is not syms:
                v = usable(v)
            at = max(j for j, s in enumerate(v) if s == k)
            for j in range(I.values_at(v, at)):
                recs.append(("value-%s-%d" % (k, len(recs)), I.record("b%d" % len(recs), v, "value", force=(at, j), plain=True)))
    # every statement that may not follow a position, and what may follow after one is left out
    refused = []
    for i in ids:
        p = pos[i]
        if p["maps"] > 1:
            continue
        for k in alphabet:
            if k in p["next"]:
                continue
            refused.append((p["said"], [k] + p["comp"]))
            for j in sorted(set(p["next"].values())):
                if k in pos[j]["next"] and not (k == "MAP" and pos[j]["maps"] > 1):
                    refused.append((p["said"], [k] + pos[pos[j]["next"][k]]["comp"]))
                    break
    rng.shuffle(refused)
    for a, b in refused[:1500 if quick else 40000]:
        syms = a + b
        if any(s.startswith("TYPE=") for s in syms) and syms and syms[0] == "MAP":
            syms = usable(syms)
        add(syms, "misplaced")
    # a number of planes other than that announced
    n = 0
    while n < (250 if quick else 4000):
        syms = walk(rng, pos, start)
        if "PLANES" in syms and "PLANE" in syms:
            n += 1
            recs.append(("planes-%d" % n, I.record("planes-%d" % rng.getrandbits(40), usable(syms), "planes",
                                                   delta=rng.choice([-2, -1, -1, 0, 1, 1, 2, 9]), plain=True)))
            recs.append(("numbers-%d" % n, I.record("numbers-%d" % rng.getrandbits(40), usable(syms), "numbers", numbers=.4,
                                                    delta=rng.choice([0, 0, 0, 1]), plain=True)))
    for n in range(2600 if quick else 40000):
        syms = walk(rng, pos, start)
        if rng.random() < .93:
            syms = usable(syms)
        add(syms, "values", vary=.5, bad=rng.choice([0, 0, .03, .08]), plain=rng.random() < .3)
    return dict(models=[], harnesses=(), model_stats=[model],
                batches=[Batch("InputTrace", recs, corrupt=I.corrupt)],
                rule="every position and step of the grammar as TLC enumerates it (spec/GrammarMC.tla), completed to a whole input; "
                     "statements that may not follow, left-out statements, unknown words; random sentences with values on, at and beyond "
                     "the bounds of their domains, in varied spelling")
