"""One property check: models, recorded scenarios, verdict, evidence."""
import copy, json, os, random, shutil, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
from . import build as B, tlc as T

FINDINGS = os.path.join(B.HERE, "known_findings.json")


class Batch:
    """Recorders validated against one trace module.

    recorders: list of (name, callable(ctx) -> scenario dict); the scenario holds
    cfg, ev and optionally _input (anything JSON, for the replay file)."""
    def __init__(self, module, recorders, cfg="Trace.cfg", corrupt=None, heap="3g"):
        self.module, self.recorders, self.cfg, self.corrupt, self.heap = module, recorders, cfg, corrupt, heap


class Ctx:
    def __init__(self, d):
        self.dir = d
        self.marc = os.path.join(d, "marc")

    def exe(self, n):
        return os.path.join(self.dir, n)


def known(pid):
    if not os.path.exists(FINDINGS):
        return {}
    return {e["scenario"]: e["what"] for e in json.load(open(FINDINGS)) if e.get("property") == pid
            and e.get("status") == "known"}


def _strip(s):
    return {k: v for k, v in s.items() if not k.startswith("_")}


REPEAT = 16         # rejected scenarios that are run again


def _record(ctx, recs, until):
    def one(r):
        if time.time() > until:
            return None
        s = r[1](ctx)
        s["id"] = r[0]
        return s
    with ThreadPoolExecutor(8) as ex:
        return [s for s in ex.map(one, recs) if s is not None]


def run(pid, build_fn, level_note=None):
    """build_fn(rng, tier) -> dict(harnesses=(), models=[...], batches=[Batch], level, assumptions, rule)"""
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rng = random.Random("%s-%d" % (pid, seed))
    plan = build_fn(rng, tier)
    until = t0 + (300 if tier == "quick" else 4 * 3600)
    if plan.get("sanitized"):
        ctx = Ctx(B.build((), kind="ub"))
        ctx.san = os.path.join(B.build((), kind="san"), "marc")
    else:
        ctx = Ctx(B.build(plan.get("harnesses", ())))
    ev = dict(property=pid, tier=tier, seed=seed, level=plan.get("level", "model_checking"), coverage={},
              assumptions=plan.get("assumptions", []), wall_s=0.0, violations=0)
    states = trans = 0
    models = list(plan.get("model_stats", []))      # explored while planning
    for m in models:
        states += m["states"]
        trans += m["transitions"]
    for m in plan.get("models", []):
        r = T.model_check(m["module"], m["cfg"], must_cover=m.get("cover", ()),
                          timeout=m.get("timeout", 600))
        models.append(r)
        states += r["states"]
        trans += r["transitions"]
    accepted, total, violations, notes = 0, 0, [], []
    kn = known(pid)
    samples = []
    evaluations = 0
    kinds = {}
    corrupt_checked = 0
    for b in plan["batches"]:
        scen = _record(ctx, b.recorders, until)
        if len(scen) < len(b.recorders):
            notes.append("out of time: %d of %d scenarios recorded" % (len(scen), len(b.recorders)))
        if not scen:
            continue
        byname = {r[0]: r for r in b.recorders}
        rej, d, g = T.validate(b.module, b.cfg, [_strip(s) for s in scen], heap=b.heap)
        states += d
        trans += g
        total += len(scen)
        evaluations += sum(len(s["ev"]) for s in scen)
        names = {s["id"]: n for s, n in rej}
        for s in scen:
            kinds[s.get("_kind", b.module)] = kinds.get(s.get("_kind", b.module), 0) + 1
        if names:   # a rejection counts only if a second execution repeats it
            unknown = [n for n in names if n not in kn][:REPEAT]
            again = _record(ctx, [byname[n] for n in names if n in kn] + [byname[n] for n in unknown], t0 + 36000)
            rej2, _, _ = T.validate(b.module, b.cfg, [_strip(s) for s in again], heap=b.heap)
            names2 = {s["id"]: n for s, n in rej2}
            full = {s["id"]: s for s in again}
            for n in [n for n in names if n in full]:
                if n not in names2:
                    notes.append("%s was rejected once and accepted when repeated" % n)
                elif n in kn:
                    print("KNOWN-FINDING: property=%s %s" % (pid, kn[n]))
                else:
                    violations.append((n, names2[n], full[n], b.module))
        accepted += len(scen) - len(names)
        good = [s for s in scen if s["id"] not in names]
        for s in good[:2]:
            j = json.dumps(_strip(s))
            c = s.get("cfg")
            if len(json.dumps(c)) > 4000:
                c = json.dumps(c)[:1000] + " ..."
            samples.append(dict(id=s["id"], cfg=c, events=len(s["ev"]), first_events=json.loads(j)["ev"][:2]
                                if len(j) < 20000 else json.dumps(s["ev"][0])[:400]))
        # the binding is real: a corrupted recording must not be accepted
        if b.corrupt and good and not names:
            bad = []
            for s in good[:: max(1, len(good) // 6)]:
                c = b.corrupt(copy.deepcopy(_strip(s)), rng)
                if c is not None:
                    c["id"] = "corrupt-" + s["id"]
                    bad.append(c)
            if bad:
                rejc, _, _ = T.validate(b.module, b.cfg, bad, heap=b.heap)
                corrupt_checked += len(bad)
                if len(rejc) != len(bad):
                    ok = {s["id"] for s, _ in rejc}
                    raise T.ModelError("corrupted recordings were accepted: %s"
                                       % [c["id"] for c in bad if c["id"] not in ok])
    rd = os.path.join(B.HERE, "evidence", "replay")
    for i, (n, k, s, mod) in enumerate(violations):
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, "%s-%d.json" % (pid, i))
        nxt = s["ev"][k] if k < len(s["ev"]) else None
        with open(p, "w") as fh:
            json.dump(dict(property=pid, scenario=n, seed=seed, tier=tier, spec=mod, events_explained=k,
                           first_unexplained_event=nxt, cfg=s.get("cfg"), input=s.get("_input"),
                           command="VERIF_SEED=%d bin/check %s %s" % (seed, pid, tier)), fh, indent=1)
        print("scenario %s: event %d of %d not explained by %s: %s" %
              (n, k + 1, len(s["ev"]), mod, json.dumps(nxt)[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        if i >= 9:
            break
    for n in notes:
        print("note: " + n)
    ev["coverage"] = dict(states=states, transitions=trans, traces_validated_against_impl=accepted,
                          traces_recorded=total, evaluations=evaluations, kinds=kinds, samples=samples[:4],
                          models=models, corrupted_recordings_rejected=corrupt_checked,
                          rule=plan.get("rule", ""))
    if notes:
        ev["coverage"]["notes"] = notes
    ev["violations"] = len(violations)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(B.HERE, "evidence"), exist_ok=True)
    with open(os.path.join(B.HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d traces recorded from the code, %d accepted, %d violations, %d states, %.1f s"
          % (pid, total, accepted, len(violations), states, ev["wall_s"]))
    return 1 if violations else 0
