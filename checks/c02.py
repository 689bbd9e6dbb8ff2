"""C02: a map does not depend on what else is made in the same run."""
from vlib.check import Batch
from vlib.marc import Sandbox
from . import proj, settings as S


def scenario(rng, n):
    b = proj.pick_body(rng)
    while not .6 < b["pol"] / b["eq"] <= 1:
        b = proj.pick_body(rng)
    files = {}
    es = [S.entry(rng, b, "a", files)]
    es.append(es[0].variant(rng, .6))
    if rng.random() < .6:
        es.append(S.entry(rng, dict(b, pro=rng.random() < .5), "b", files))
        if rng.random() < .5:
            es.append(es[-1].variant(rng, .8))
    runs = []
    for e in es:
        runs.append([[(e, None)]])
    for q in range(3):
        order = [(rng.choice(es), None) for _ in range(rng.randint(2, 5))]
        if q == 0:
            order = [(es[0], None), (es[1], None), (es[0], None)]
        # single planes, several planes in another order
        for j in range(len(order)):
            if rng.random() < .35 and len(order[j][0].planes) > 1:
                k = list(range(len(order[j][0].planes)))
                rng.shuffle(k)
                order[j] = (order[j][0], k[:rng.randint(1, len(k))])
        cut = rng.randint(1, len(order)) if rng.random() < .4 else len(order)
        runs.append([x for x in (order[:cut], order[cut:]) if x])
    for e in es[:2]:
        if len(e.planes) > 1:
            runs.append([[(e, [j]) for j in range(len(e.planes))]])

    def rec(ctx):
        ev, last = [], None
        with Sandbox() as s:
            for k, v in files.items():
                s.put(k, v)
            for parts in runs:
                x, r = S.run(s, ctx, parts)
                ev += x
                if r.rc != 0:
                    last = dict(status=r.rc, out=r.out[-300:], err=r.err[-300:])
                    break
        return dict(cfg=dict(n=n), ev=ev, _kind="batches",
                    _input=dict(runs=[[[e.text("m.fits", pl) for e, pl in part] for part in parts] for parts in runs], last=last))
    return rec


def plan(rng, tier):
    n = 240 if tier == "quick" else 2500
    return dict(models=[S.model(tier)],
                batches=[Batch("SettingsTrace", [("batch-%d" % i, scenario(rng, i)) for i in range(n)], corrupt=S.corrupt)],
                rule="entries and copies of them with optional settings left out, alone, in sequences of up to five in one or two input "
                     "files, with their planes alone, in part and in another order")
