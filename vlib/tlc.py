"""Running TLC: exhaustive models, and batches of recorded traces."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build as B

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(B.HERE, "spec")


class ModelError(Exception):
    """The specification or TLC itself failed: never a verdict about the code."""


def java_classes():
    out = os.path.join(B.BUILD, "java")
    src = [os.path.join(SPEC, "java", f) for f in sorted(os.listdir(os.path.join(SPEC, "java"))) if f.endswith(".java")]
    stamp = os.path.join(out, "FReal.class")
    if not os.path.exists(stamp) or any(os.path.getmtime(s) > os.path.getmtime(stamp) for s in src):
        tmp = tempfile.mkdtemp(dir=_mk(B.BUILD))
        r = subprocess.run(["javac", "-cp", JARS, "-d", tmp] + src, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ModelError("javac: " + r.stdout)
        _mk(out)
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(out, f))
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


def tlc(module, cfg, env=None, args=(), workers=1, heap="3g", timeout=800):
    """One TLC run in a scratch directory. Returns (exit code, output)."""
    classes = java_classes()
    work = tempfile.mkdtemp(prefix="tlc-", dir=_mk(os.path.join(B.BUILD, "scratch")))
    try:
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap,
               "-Djava.io.tmpdir=" + work,
               "-cp", JARS + ":" + classes, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(work, "meta"), "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module)]
        try:
            r = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ModelError("TLC timed out on %s %s" % (module, cfg))
        out = "\n".join(l for l in r.stdout.splitlines()
                        if not re.match(r"(Parsing file|Semantic processing|Linting of|Loading \w+ operator)", l))
        return r.returncode, out
    finally:
        shutil.rmtree(work, ignore_errors=True)


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(module, cfg, workers=8, heap="8g", args=("-coverage", "1"), must_cover=(), timeout=800):
    """Exhaustive check of a model.  Returns dict(states, transitions, actions)."""
    rc, out = tlc(module, cfg, workers=workers, heap=heap, args=args, timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        raise ModelError("model %s/%s does not check (rc=%d):\n%s" % (module, cfg, rc, out[-5000:]))
    gen, dist = stats(out)
    acts = {}
    for m in re.finditer(r"^<(\w+) line.*?>: (\d+):(\d+)", out, re.M):
        acts[m.group(1)] = acts.get(m.group(1), 0) + int(m.group(3))
    for a in must_cover:
        if not acts.get(a):
            raise ModelError("vacuous model %s: action %s never taken (%s)" % (cfg, a, acts))
    return dict(states=dist, transitions=gen, actions=acts, module=module, cfg=cfg)


def validate(module, cfg, scenarios, jobs=8, heap="3g", timeout=800, env=None):
    """Validate recorded scenarios against a trace specification.

    Every scenario is {"id": str, "ev": [event, ...]} .  The trace module prints
    <<"REJECT", index, events matched>> for each scenario it cannot explain and
    <<"DONE", count>> when it has looked at all of them.  Returns
    (list of (scenario, number of events matched), states, transitions)."""
    if not scenarios:
        return [], 0, 0
    jobs = max(1, min(jobs, len(scenarios)))
    # balance by size
    sizes = sorted(((len(json.dumps(s)), i) for i, s in enumerate(scenarios)), reverse=True)
    bins = [[0, []] for _ in range(jobs)]
    for sz, i in sizes:
        b = min(bins, key=lambda x: x[0])
        b[0] += sz
        b[1].append(i)
    work = tempfile.mkdtemp(prefix="trace-", dir=_mk(os.path.join(B.BUILD, "scratch")))
    java_classes()

    def one(k):
        idx = bins[k][1]
        p = os.path.join(work, "t%d.ndjson" % k)
        with open(p, "w") as fh:
            for i in idx:
                fh.write(json.dumps(scenarios[i]) + "\n")
        e = {"TRACE": p}
        e.update(env or {})
        rc, out = tlc(module, cfg, env=e, heap=heap, timeout=timeout)
        m = re.search(r'<<"DONE", (\d+)>>', out)
        if not m or int(m.group(1)) != len(idx):
            raise ModelError("TLC did not evaluate the traces (rc=%d):\n%s" % (rc, out[-4000:]))
        if re.search(r"^Error: (?!.*POSTCONDITION)", out, re.M) and not re.search(r"REJECT", out):
            raise ModelError("TLC error (rc=%d):\n%s" % (rc, out[-4000:]))
        rej = [(idx[int(a) - 1], int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out)]
        return rej, stats(out), out

    try:
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(one, [k for k in range(jobs) if bins[k][1]]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    rejected, dist, gen = [], 0, 0
    for rej, (g, d), out in res:
        gen += g
        dist += d
        rejected += [(scenarios[i], n) for i, n in rej]
    return rejected, dist, gen
