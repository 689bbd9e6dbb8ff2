#!/usr/bin/env python3
"""tools/mkseed.py FILE...: turn a planted-bug description into /verif/seeded/<id>/.

A description is a Python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS =
[(file, old, new), ...] and DEMO (the text of demo.py).  The change is made in a
scratch copy of /repo, built, tested against the stable tests, and the
demonstration is run without and with it; only then is it kept."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedrepo"
SH = "#!/bin/bash\nexec python3 \"$(dirname \"$0\")/demo.py\"\n"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prepare():
    shutil.rmtree(S, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", S])
    for n in ("build", "test"):
        t = open("/opt/vp/%s.sh" % n).read().replace("/opt/vp/build.sh", "/tmp/seed_build.sh").replace("/repo", S)
        open("/tmp/seed_%s.sh" % n, "w").write(t)
    assert sh("bash /tmp/seed_build.sh").returncode == 0


def one(path):
    d = {}
    exec(open(path).read(), d)
    sid = d["ID"]
    sh("git -C %s checkout -q -- ." % S)
    dst = os.path.join("/tmp/seed-new", sid)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    open(dst + "/demo.py", "w").write("import os, sys\nsys.dont_write_bytecode = True\n"
                                      "sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n"
                                      "from demolib import *\n" + d["DEMO"])
    open(dst + "/demo.sh", "w").write(SH)
    os.chmod(dst + "/demo.sh", 0o755)
    shutil.copy(os.path.join(HERE, "tools", "demolib.py"), dst)
    r = sh("bash /tmp/seed_build.sh")
    assert r.returncode == 0, r.stdout[-2000:]
    r = sh("bash %s/demo.sh" % dst, cwd=S)
    if r.returncode != 0:
        return "demo fails on the unchanged tree: " + r.stdout[-1500:]
    for f, old, new in d["EDITS"]:
        t = open(os.path.join(S, f)).read()
        if t.count(old) != 1:
            return "%s: %d matches for %r" % (f, t.count(old), old[:60])
        open(os.path.join(S, f), "w").write(t.replace(old, new))
    diff = sh("git -C %s diff" % S).stdout
    r = sh("bash /tmp/seed_test.sh /tmp/seed_o.json")
    o = json.load(open("/tmp/seed_o.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    missing = [x for x in stable if x not in o["passed"]]
    if missing:
        return "tests fail: %s %s" % (missing, r.stdout[-1500:] if not o["passed"] else "")
    r = sh("bash %s/demo.sh" % dst, cwd=S)
    sh("git -C %s checkout -q -- ." % S)
    if r.returncode == 0:
        return "demo does not fail with the change"
    open(dst + "/patch.diff", "w").write(diff)
    json.dump(dict(property=d["PROPERTY"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]),
              open(dst + "/meta.json", "w"), indent=1)
    out = os.path.join(HERE, "seeded", sid)
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(dst, out)
    return "kept: " + r.stdout.strip()[-150:]


if __name__ == "__main__":
    prepare()
    for p in sys.argv[1:]:
        print(os.path.basename(p), one(p))
    shutil.rmtree(S, ignore_errors=True)
