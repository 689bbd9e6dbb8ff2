"""C01: all or nothing, in order, and the status tells."""
from vlib.check import Batch
from . import session as S


def scenario(rng, n):
    names = ["m.fits", "n.fits", "sub/o.fits", "p"][:rng.choice([1, 2, 3, 4])]
    files, inputs, spec = {}, [], []
    dirs = ["sub"]
    mode = rng.choice(["fine", "fine", "bad", "bad", "missing", "unable", "unable", "config", "mixed"])
    count = rng.choice([1, 1, 2, 2, 3])
    tag = 0
    culprit = rng.randrange(count)
    kinds = [mode]
    for j in range(count):
        state, text, maps = "good", "", []
        for _ in range(rng.choice([1, 1, 2, 3])):
            tag += 1
            t = "t%d" % tag
            nm = rng.choice(names)
            able = True
            if mode in ("unable", "mixed") and rng.random() < .5:
                able = False
                x, k = S.unable_entry(rng, nm, t, files)
                kinds.append(k)
            elif rng.random() < .05:
                able, nm = False, "nodir/%s.fits" % t
                x = S.good_entry(rng, nm, t, files)
                kinds.append("nodir")
            else:
                x = S.good_entry(rng, nm, t, files)
            text += x + rng.choice(["", "\n", "# comment\n"])
            maps.append(dict(id=t, name=nm, able=able, _text=x))
        fn = "in%d.marc" % j
        if j == culprit and mode in ("bad", "mixed") and (mode == "bad" or rng.random() < .3):
            state = "bad"
            text, k = S.spoil(rng, text)
            kinds.append(k)
        if j == culprit and mode == "missing":
            state = "missing"
            text = None
            if rng.random() < .25:
                fn = rng.choice(["sub", "nodir/in.marc", "."])
        inputs.append((fn, text))
        spec.append(dict(state=state, maps=maps))
    if mode == "fine" and rng.random() < .2:     # the same file twice
        inputs.append(inputs[0])
        spec.append(dict(state="good", maps=[dict(m) for m in spec[0]["maps"]]))
    config, cs = None, "none"
    env = {}
    if mode == "config" or rng.random() < .2:
        cs = "bad" if mode == "config" else "good"
        config = rng.choice(["GRID_INTERVAL: 20\n", "LAT_GRID_INTERVAL: 5\nLON_GRID_INTERVAL: 15\n"]) if cs == "good" else \
            rng.choice(["GRID_INTERVAL: -20\n", "GRID_INTERVAL 20\n", "GRID_INTERVAL: 0\n", "nonsense\n",
                        "GRID_INTERVAL: 20\nSAMPLES: 3\n"])
    if mode == "missing" and inputs[culprit][1] is None and rng.random() < .3:
        # there, but closed to the reader
        fn = "in%d.marc" % culprit
        inputs[culprit] = (fn, "MAP: m.fits\n")
        env["SHIM_DENY"] = fn
    if mode == "config" and rng.random() < .3:
        config = "GRID_INTERVAL: 20\n"
        env["SHIM_DENY"] = "xdg/marc"
    nm = sorted(set(names) | {m["name"] for i in spec for m in i["maps"]} | {"bystander.fits"})
    old = {k: rng.choice(list(S.OLD.values())) for k in names if rng.random() < .5}
    old["bystander.fits"] = S.OLD["fits"]
    cfg = dict(fragile=False, config=cs, inputs=spec, disk={k: "old" if k in old else "" for k in nm})
    return S.record(inputs, cfg, files, old, config=config, kind=mode, dirs=dirs, env=env)


def plan(rng, tier):
    n = 500 if tier == "quick" else 8000
    return dict(models=[dict(module="SessionMC", cfg="SessionMC.cfg",
                             cover=("ReadConfig", "ReadInput", "StartMaps", "Refuse", "MakeMap", "Impossible", "Fault", "Finish",
                                    "GiveUp"))],
                batches=[Batch("SessionTrace", [("run-%d" % i, scenario(rng, i)) for i in range(n)], corrupt=S.corrupt)],
                rule="runs with one to three input files of one to three maps over few names, with files already there; inputs "
                     "refused, missing or asking for maps that cannot be made; good and bad configuration files; every operation "
                     "on a map's name is recorded by a preloaded library")
