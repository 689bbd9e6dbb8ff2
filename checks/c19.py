"""C19: progress reports."""
import re, subprocess
from vlib.check import Batch
from vlib.marc import Sandbox, map_text, body
from . import maps


def parse(out):
    ev = []
    for x in out.splitlines():
        if not x.startswith("@"):
            continue
        w = x[1:].split(" ", 5)
        if w[0] == "told":
            ev.append(dict(op="told", obs=w[1], size=int(w[2]), count=int(w[3]), console=w[4] == "1",
                           text=w[5].replace("\\n", "\n")))
        elif w[0] == "gap":
            ev.append(dict(op="gap", obs=w[1], size=int(w[2]), count=int(w[3]), again=w[4] == "1",
                           text=w[5].replace("\\n", "\n")))
        elif w[0] in ("reset", "subscribe"):
            ev.append(dict(op=w[0], obs=w[1]))
        elif w[0] == "plane":
            ev.append(dict(op="plane", size=int(w[1])))
        elif w[0] == "made":
            ev.append(dict(op="made", body=int(w[1])))
        else:
            ev.append(dict(op="failed"))
    return ev


def merged(ev):
    """Runs of notices of one more pixel each, with nothing shown, as one event."""
    out = []
    for e in ev:
        p = out[-1] if out else None
        if (e["op"] == "told" and e["text"] == "" and p is not None and p["op"] in ("told", "toldrun") and p["text"] == ""
                and (p["obs"], p["size"], p["console"], p["count"] + 1) == (e["obs"], e["size"], e["console"], e["count"])):
            p.update(op="toldrun", count=e["count"])
        elif e["op"] == "told":
            out.append(dict(e, **{"from": e["count"]}))
        else:
            out.append(e)
    return out


def drive(cmds, kind):
    def rec(ctx):
        try:
            r = subprocess.run([ctx.exe("progress")], input="\n".join(cmds) + "\n", text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired:
            out, rc = "", -1
        ev = parse(out)
        if kind == "large":
            ev = merged(ev)
        if rc != 0 or sum(e["op"] in ("plane", "gap") for e in ev) != sum(c[:3] in ("pla", "gap") for c in cmds):
            ev.append(dict(op="crash"))
        return dict(cfg={}, ev=ev, _input=cmds, _kind=kind)
    return rec


def notifying(rng):
    """A map factory makes planes; observers subscribe before any of them."""
    s, n = rng.choice([(1, 1), (1, 2), (2, 1), (1, 7), (5, 1), (3, 4), (7, 7), (9, 5), (10, 10), (11, 9), (8, 13),
                       (rng.randint(1, 12), rng.randint(1, 12))])
    if rng.random() < .5:
        s, n = rng.randint(1, 10), rng.randint(1, 10)
    k = rng.choice(["simple", "mercator", "polar", "ortho", "ortho", "ortho"])
    a, b, c, d = dict(simple=(rng.choice([-90, -30]), rng.choice([90, 10]), 0, 360),
                      mercator=(0, 0, 0, 0), polar=(rng.choice([2, 45]), rng.choice([0, 1]), 0, 0),
                      ortho=(rng.uniform(-90, 90), rng.uniform(0, 360), rng.uniform(0, 360),
                             rng.choice([-1, 1, .2, 10 ** rng.uniform(-2, 1)])))[k]
    eq = 5.0
    cmds = ["%s %d %d %d %r %r %r %r %r %r" % (k, s, n, rng.choice([0, 1]), eq, eq * rng.choice([1, .9, .6]), a, b, c, d)]
    o = 0
    for _ in range(rng.randint(1, 3)):
        while rng.random() < (.9 if o == 0 else .35) and o < 3:
            o += 1
            cmds.append("%s o%d" % (rng.choice(["observer", "console"]), o))
        cmds.append("plane %d %r %r" % (rng.choice([0, 1, 1, 2, 3, 5]), rng.choice([-1.0, 3.0]), rng.choice([3.0, 9.0])))
    return drive(cmds, "notify")


def large(rng):
    """Many pixels, one observer."""
    s, n = rng.choice([(260, 258), (70000, 1), (1, 66000), (300, 230), (rng.randint(100, 400), rng.randint(100, 200))])
    k = rng.choice(["simple", "polar", "ortho"])
    a, b, c, d = dict(simple=(-90, 90, 0, 360), polar=(2, 1, 0, 0), ortho=(10., 20., 0., rng.choice([-1, .001])))[k]
    return drive(["%s %d %d 1 5.0 4.5 %r %r %r %r" % (k, s, n, a, b, c, d), rng.choice(["observer", "console"]) + " o1"]
                 + ["plane %d -1.0 9.0" % rng.choice([0, 1, 2]) for _ in range(rng.choice([1, 1, 2]))], "large")


def gaps(rng):
    """Consoles told of growing counts, plane after plane."""
    cmds = []
    for _ in range(rng.randint(1, 3)):
        size = rng.choice([1, 2, 3, 7, 49, 50, 51, 99, 100, 101, 199, 200, 1000, rng.randint(1, 300),
                           rng.randint(1, 20000000), rng.randint(40000000, 200000000)])
        m = min(size, rng.choice([0, 1, 2, 5, 20, 60]))
        cs = sorted(rng.sample(range(1, size + 1), m))
        if rng.random() < .3:
            cs = list(range(1, min(size, 130) + 1))
        cs += [size]
        if rng.random() < .2:
            cs.insert(0, 0)
        for i, c in enumerate(cs):
            cmds.append("gap c %d %d %d" % (size, c, i == len(cs) - 1))
    return drive(cmds, "console")


def program(rng):
    """Whole runs of the program."""
    text, planes = "", []
    for m in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice([1, 1, 2, 3, rng.randint(4, 9), rng.randint(10, 12)])
        s, n = rng.choice([(1, 1), (1, 3), (7, 1), (10, 5), (10, 10), (33, 3), (rng.randint(1, 30), rng.randint(1, 30))])
        proj, o, _, _ = maps.projection(rng, dict(eq=1000, pol=900))
        p = [rng.choice(["LATITUDE: CENTRIC\n", "LONGITUDE\n"])
             for _ in range(k)]
        text += map_text("m%d.fits" % m, body(1000, 900, prograde=rng.random() < .5), proj, o, s, n, planes=p,
                         dtype=rng.choice(["DOUBLE", "FLOAT", "SHORT"]))
        planes.append(k)

    def rec(ctx):
        with Sandbox() as sb:
            sb.put("in.marc", text)
            r = sb.marc(ctx.marc, ["in.marc"])
            ev, m = [], 0
            # log messages (debugging builds log during mapping) are not part of the progress line
            out = re.sub(r"\[marc\]\[\w+\] [^\n]*\n", "", r.out)
            for x in out.splitlines():
                if x.startswith("Creating map: "):
                    m += 1
                elif x.startswith("Plane "):
                    ev.append(dict(op="report", map=max(1, min(m, len(planes))), text=x + "\n"))
            ev.append(dict(op="end", ok=r.rc == 0, maps=m, hundreds=r.out.count("100%")))
            return dict(cfg=dict(planes=planes), ev=ev, _input=dict(text=text, out=r.out, err=r.err), _kind="program")
    return rec


def corrupt(s, rng):
    for e in s["ev"]:
        if e["op"] == "told":
            e["count"] += 1
            return s
        if e["op"] in ("report", "gap"):
            e["text"] += "."
            return s


def plan(rng, tier):
    k = 1 if tier == "quick" else 12
    recs = [("notify-%d" % i, notifying(rng)) for i in range(220 * k)]
    recs += [("large-%d" % i, large(rng)) for i in range(24 * k)]
    recs += [("gaps-%d" % i, gaps(rng)) for i in range(200 * k)]
    recs += [("run-%d" % i, program(rng)) for i in range(120 * k)]
    return dict(harnesses=("progress",), batches=[Batch("ProgressTrace", recs, corrupt=corrupt)],
                models=[dict(module="ProgressMC", cfg="ProgressMC.cfg", cover=("Subscribe", "Plot", "Done"))],
                rule="maps of 1 to 144 (some of 70 000) pixels of all projections, one to three planes with up to three observers "
                     "subscribed before any plane, sources with and without data; consoles told of counts with gaps "
                     "for sizes up to two hundred million; output of whole runs")
