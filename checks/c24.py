"""C24: what the command line and the environment ask for."""
import math, os, re, subprocess
from vlib import fits
from vlib.check import Batch
from vlib.marc import Sandbox, map_text, body

OPTIONS = [("help", "--help"), ("help", "-?"), ("version", "--version"), ("version", "-V"), ("usage", "--usage"),
           ("bad", "-x"), ("bad", "--bogus"), ("bad", "--grid=3"), ("bad", "-q")]
PLAIN = ["in.marc", "b.marc", "two words.marc", "sub/c.marc", "./d", "caf\u00e9.marc", "x-V", "a--b", "h=help"]
DASHED = ["-V", "--help", "-x", "--", "-o.marc", "--version", "-"]
OUTS = ["m.fits", "n.fits"]


SPOILED = 99


def spoil(path, how):
    """A configuration that cannot be read or is none."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if how == "loop":
        os.symlink(os.path.basename(path), path)
    elif how == "directory":
        os.mkdir(path)
    elif how == "forbidden":
        open(path, "w").write(limit(1))
        os.chmod(path, 0)
    else:
        open(path, "w").write({"words": "no configuration\n", "value": "DATA_MAX: five\n", "after": limit(1) + "DATA_MIN 3\n"}[how])


def nobody():
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)


def unprivileged(ctx):
    """Whether a run without privileges is possible here and keeps a file from being read."""
    if not hasattr(ctx, "nobody"):
        with Sandbox() as s:
            p = s.put("x", "x")
            os.chmod(p, 0)
            os.chmod(s.dir, 0o777)
            try:
                ok = s.bare(ctx.marc, ["--version"], {}, s.dir, preexec=nobody).rc == 0
                ctx.nobody = ok and s.bare("/bin/cat", [p], {}, s.dir, preexec=nobody).rc not in (0, None)
            except (OSError, subprocess.SubprocessError):
                ctx.nobody = False
    return ctx.nobody


def limit(k):
    """Configuration number k: the highest of the latitudes -85..85 that is mapped is 85 - 10 k."""
    return "DATA_MAX: %d\n" % (87 - 10 * k)


def request(rng):
    plain, dashed = rng.sample(PLAIN, 3), rng.sample(DASHED[:6], 2)
    inputs = [dict(name=n, out=rng.choice(OUTS), id="t%d" % i) for i, n in enumerate(plain[:2] + dashed[:1])]
    args = []
    dashes = rng.random() < .45
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        args.append(dict(k="name", t=rng.choice(plain[:2])))
    if rng.random() < .12:
        args.insert(rng.randint(0, len(args)), dict(k="name", t=plain[2]))     # there is no such file
    for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2, 3])):
        k, t = rng.choice(OPTIONS)
        args.insert(rng.randint(0, len(args)), dict(k=k, t=t))
    if dashes:
        args.append(dict(k="dashes", t="--"))
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            t = rng.choice(plain[:2]) if r < .5 else dashed[0] if r < .9 else rng.choice([dashed[1], plain[2]])
            k = dict((b, a) for a, b in OPTIONS).get(t, "dashes" if t == "--" else "bad" if t.startswith("-") else "name")
            args.append(dict(k=k, t=t))
    xdg, home = rng.choice(["unset", "unset", "empty", "set", "set", "set"]), rng.choice(["unset", "set", "set", "set"])
    ks = rng.sample(range(1, 9), 3)
    confs = dict(zip(("xdg", "home", "old"), [k if rng.random() < .65 else 0 for k in ks]))
    if rng.random() < .2:
        confs[rng.choice(["xdg", "home"])] = SPOILED
    return dict(args=args, inputs=inputs, xdg=xdg, home=home, confs=confs, outs=OUTS)


def scenario(rng, n):
    cfg = request(rng)
    badold = rng.random() < .3
    slash = rng.random() < .3
    nodir = rng.random() < .3
    how = rng.choice(["loop", "directory", "words", "value", "after", "forbidden", "forbidden"])

    def rec(ctx):
        with Sandbox() as s:
            for i in cfg["inputs"]:
                s.put("work/" + i["name"], map_text(i["out"], body(eq="1000", pol="1000"), "SIMPLE_C", "", 2, 18,
                                                    ["LATITUDE: CENTRIC\n"], dtype="DOUBLE", head="AUTHOR: %s\n" % i["id"]))
            os.makedirs(os.path.join(s.dir, "work", "sub"), exist_ok=True)
            c = cfg["confs"]
            as_nobody = False
            for d, k in (("conf/marc", c["xdg"]), ("me/.config/marc", c["home"])):
                if k == SPOILED:
                    as_nobody = how == "forbidden" and unprivileged(ctx)
                    spoil(os.path.join(s.dir, d), "loop" if how == "forbidden" and not as_nobody else how)
                elif k:
                    s.put(d, limit(k))
                elif not nodir:
                    os.makedirs(os.path.dirname(os.path.join(s.dir, d)), exist_ok=True)
            os.makedirs(os.path.join(s.dir, "me"), exist_ok=True)
            if c["old"]:
                s.put("me/.marc", "no configuration\n" if badold else limit(c["old"]))
            env = {}
            if cfg["xdg"] != "unset":
                env["XDG_CONFIG_HOME"] = "" if cfg["xdg"] == "empty" else os.path.join(s.dir, "conf") + "/" * slash
            if cfg["home"] == "set":
                env["HOME"] = os.path.join(s.dir, "me")
            if as_nobody:
                os.chmod(s.dir, 0o755)
                os.chmod(os.path.join(s.dir, "work"), 0o777)
            r = s.bare(ctx.marc, [a["t"] for a in cfg["args"]], env, os.path.join(s.dir, "work"), preexec=nobody if as_nobody else None)
            text = "\n".join(x for x in r.out.split("\n") if x.strip() and not x.startswith("[marc]") and "%" not in x)
            what = "usage" if "Usage:" in text else "version" if re.search(r"^MaRC \d+\.\d+\S*$", text, re.M) else ""
            ev = [dict(op="exit", ok=r.rc == 0, told=r.rc is not None and r.rc >= 0 and (bool(r.err.strip()) or "[error]" in r.out)),
                  dict(op="show", what=what)]
            for n in OUTS:
                ev.append(dict(op="map", name=n, **look(os.path.join(s.dir, "work", n))))
            return dict(cfg=cfg, ev=ev, _kind="invocation", _input=dict(args=[a["t"] for a in cfg["args"]], env=env, confs=c,
                        status=r.rc, stdout=r.out[-600:], stderr=r.err[-600:]))
    return rec


def look(path):
    if not os.path.exists(path):
        return dict(id="", conf=0)
    try:
        h = fits.read(path)[0]
        top = max(v for v in h.values() if not math.isnan(v))
        return dict(id=str(h.kw["AUTHOR"]).strip(), conf=int(round((85 - top) / 10)))
    except (fits.FitsError, KeyError, ValueError, IndexError):
        return dict(id="unreadable", conf=-1)


def corrupt(s, rng):
    e = rng.choice(s["ev"])
    if e["op"] == "exit":
        e["ok"] = not e["ok"]
    elif e["op"] == "show":
        e["what"] = "usage" if e["what"] != "usage" else ""
    elif e["id"]:
        e["conf"] += 1
    else:
        e["id"] = "t0"
        e["conf"] = 9
    return s


def plan(rng, tier):
    n = 500 if tier == "quick" else 8000
    return dict(models=[dict(module="InvocationMC", cfg="InvocationMC.cfg",
                             cover=("Configure", "TakeName", "TakeDashes", "Inform", "Refuse", "Absent", "Perform", "GiveUp"))],
                batches=[Batch("InvocationTrace", [("inv-%d" % i, scenario(rng, i)) for i in range(n)], corrupt=corrupt)],
                rule="options, names and two dashes in any order and number; configurations in any of three places, the two "
                     "variables set or not; configurations that cannot be read, for lack of permission too")
