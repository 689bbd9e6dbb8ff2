"""C21: configuration file values are the defaults, and only the defaults."""
from vlib.check import Batch
from vlib.marc import Sandbox
from . import proj, settings as S


def config(rng, zero=False):
    c = []
    if rng.random() < .6:
        c += S.grid_settings(rng)
    r = []
    if rng.random() < .45:
        r.append(("DATA_MIN", "-40" if zero else rng.choice(["-40", "0", "6", "10.5"])))
    if rng.random() < .45:
        r.append(("DATA_MAX", rng.choice(["0", "0", "70"] if zero else ["70", "55.5", "100"])))
    if rng.random() < .5:
        r.reverse()
    return c + r + (S.nibbles(rng) if rng.random() < .8 else [])


NONE = {"LAT_GRID_INTERVAL": "10", "LON_GRID_INTERVAL": "10"}


def spelled(e, conf, rng, part=1.0):
    """The same entry with what it would take from the configuration said outright."""
    c = {}
    for k, v in conf:
        for q in {"NIBBLE": ("NIBBLE_LEFT", "NIBBLE_RIGHT", "NIBBLE_TOP", "NIBBLE_BOTTOM"),
                  "GRID_INTERVAL": ("LAT_GRID_INTERVAL", "LON_GRID_INTERVAL")}.get(k, (k,)):
            c[q] = v
    say = lambda: rng.random() < part
    head = []
    h = dict(e.head)
    for k, v in e.head:
        if k in ("GRID_INTERVAL", "LAT_GRID_INTERVAL", "LON_GRID_INTERVAL"):
            continue
        head.append((k, v))
        if k == "GRID":
            g = []
            for q in ("LAT_GRID_INTERVAL", "LON_GRID_INTERVAL"):
                own = h.get(q, h.get("GRID_INTERVAL"))
                w = own or c.get(q, "10")
                if own or say():
                    g.append((q, w))
            if rng.random() < .5:
                g.reverse()
            head += g
    planes = []
    for p in e.planes:
        own = dict((k, v) for k, v in p if k in ("DATA_MIN", "DATA_MAX"))
        out = []
        for q in ("DATA_MIN", "DATA_MAX"):
            if q in own:
                out.append((q, own[q]))
            elif q in c and say():
                out.append((q, c[q]))
        rest = [x for x in p if x[0] not in ("DATA_MIN", "DATA_MAX")]
        res, j = [], 0
        while j < len(rest):
            k, v = rest[j]
            j += 1
            res.append((k, v))
            if k == "IMAGE":
                nb = {}
                while j < len(rest) and rest[j][0].startswith("NIBBLE"):
                    kk, vv = rest[j]
                    for q in ("NIBBLE_LEFT", "NIBBLE_RIGHT", "NIBBLE_TOP", "NIBBLE_BOTTOM"):
                        if kk in ("NIBBLE", q):
                            nb[q] = vv
                    j += 1
                for q in ("NIBBLE_LEFT", "NIBBLE_RIGHT", "NIBBLE_TOP", "NIBBLE_BOTTOM"):
                    if q in nb:
                        res.append((q, nb[q]))
                    elif say():
                        res.append((q, c.get(q, "0")))
        planes.append(out + res)
    return S.Entry(head, planes)


def scenario(rng, n):
    b = proj.pick_body(rng)
    while not .6 < b["pol"] / b["eq"] <= 1:
        b = proj.pick_body(rng)
    files = {}
    es = [S.entry(rng, b, "a", files, tame=True)]
    if rng.random() < .5:
        es.append(S.entry(rng, b, "b", files, tame=True))
    # no maximum of zero where a plane gives nothing but a minimum above that
    only = lambda p: [v for k, v in p if k in ("DATA_MIN", "DATA_MAX")] if "DATA_MAX" not in dict(p) else []
    zero = rng.random() < .5 and not any(float(v) > 0 for e in es for p in e.planes for v in only(p))
    confs = [config(rng, zero), config(rng, zero)]
    runs = []
    for c in confs:
        batch = [(rng.choice(es), None) for _ in range(rng.choice([1, 2, 3]))]
        runs.append((c, [batch]))
        # said outright: without a configuration, with another one
        runs.append(([], [[(spelled(e, c, rng), None) for e, _ in batch]]))
        runs.append((rng.choice(confs + [config(rng, zero)]), [[(spelled(e, c, rng), None) for e, _ in batch]]))
        runs.append((c, [[(spelled(e, c, rng, .5), None) for e, _ in batch]]))
    runs.append(([], [[(e, None) for e in es]]))
    runs.append(([], [[(spelled(e, [], rng), None) for e in es]]))

    def rec(ctx):
        ev, last = [], None
        with Sandbox() as s:
            for k, v in files.items():
                s.put(k, v)
            for c, parts in runs:
                x, r = S.run(s, ctx, parts, config=c)
                ev += x
                if r.rc != 0:
                    last = dict(status=r.rc, out=r.out[-300:], err=r.err[-300:], config=c)
                    break
        return dict(cfg=dict(n=n), ev=ev, _kind="configurations",
                    _input=dict(runs=[dict(config=c, inputs=[[e.text("m.fits", pl) for e, pl in part] for part in parts])
                                      for c, parts in runs], last=last))
    return rec


def plan(rng, tier):
    n = 200 if tier == "quick" else 3000
    return dict(models=[S.model(tier)],
                batches=[Batch("SettingsTrace", [("conf-%d" % i, scenario(rng, i)) for i in range(n)], corrupt=S.corrupt)],
                rule="entries that give any part of the configurable settings, run with configurations that give any part of them, and the "
                     "same entries with all or some settings said outright, with and without (other) configurations")
