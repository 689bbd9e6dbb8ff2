"""Out-of-tree build of MaRC's library and program from /repo's working tree.

Everything is written below $VERIF_BUILD (default /verif/build), keyed by the
content of the sources, so a changed tree is always rebuilt and an unchanged one
is reused.  Nothing is written in /repo.
"""
import fcntl, hashlib, os, re, subprocess, sys, shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
CXXFLAGS = "-std=gnu++17 -g1 -O0 -w -fvisibility=hidden -fvisibility-inlines-hidden -fPIC -pthread"
SANITIZE = {"cxx": "", "ub": "-fsanitize=undefined,float-cast-overflow -fno-sanitize-recover=all",
            "san": "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer"}
FMT = "opt/fmt-8.0.1/include"


class BuildError(Exception):
    pass


def _sources(mk, var):
    text = open(mk).read().replace("\\\n", " ")
    out = []
    for m in re.finditer(r"^%s\s*\+?=\s*(.*)$" % re.escape(var), text, re.M):
        out += [w for w in m.group(1).split() if re.search(r"\.(cpp|cc|cxx|yy|ll)$", w)]
    return out


def tree_hash(extra=()):
    h = hashlib.sha256()
    files = []
    for d in ("lib", "src"):
        for root, _, names in os.walk(os.path.join(REPO, d)):
            for n in names:
                if re.search(r"\.(cpp|cc|cxx|h|hh|hpp|yy|ll|am|inl|ipp)$", n):
                    files.append(os.path.join(root, n))
    files += list(extra)
    files.append(os.path.join(HERE, "harness", "marc_config.h"))
    files.append(os.path.abspath(__file__))
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def build(harnesses=(), kind="cxx"):
    """Build marc and the named C++ harnesses (/verif/harness/NAME.cpp); kind "ub": with
    the undefined behaviour sanitizer, "san": with the address sanitizer as well.

    Returns the directory holding `marc` and one executable per harness."""
    hfiles = [os.path.join(HERE, "harness", n + ".cpp") for n in harnesses]
    common = [os.path.join(HERE, "harness", f) for f in sorted(os.listdir(os.path.join(HERE, "harness")))
              if f.endswith((".h", ".c"))]
    d = os.path.join(BUILD, kind + "-" + tree_hash(common))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _ninja(d, harnesses, hfiles, SANITIZE[kind])
        r = subprocess.run(["ninja", "-C", d, "-j", "8"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-6000:])
        _prune(d)
    return d


def _prune(keep):
    """Keep at most six build trees."""
    ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith(("cxx-", "san-", "ub-"))]
    ds.sort(key=os.path.getmtime)
    for x in ds[:-6]:
        if x != keep:
            shutil.rmtree(x, ignore_errors=True)


def _ninja(d, harnesses, hfiles, sanitize):
    inc = os.path.join(d, "inc")
    os.makedirs(os.path.join(inc, "marc"), exist_ok=True)
    dst = os.path.join(inc, "marc", "config.h")
    src = open(os.path.join(HERE, "harness", "marc_config.h")).read()
    if not os.path.exists(dst) or open(dst).read() != src:
        open(dst, "w").write(src)
    lib = _sources(os.path.join(REPO, "lib/marc/Makefile.am"), "libMaRC_la_SOURCES")
    prv = _sources(os.path.join(REPO, "src/Makefile.am"), "libMaRC_private_la_SOURCES")
    prog = _sources(os.path.join(REPO, "src/Makefile.am"), "marc_SOURCES")
    flags = "%s -DHAVE_CONFIG_H -I%s -I%s/marc -I%s/lib -I%s/%s -I%s/src -I%s -I%s/harness" % (
        (CXXFLAGS + " " + sanitize).strip(), inc, inc, REPO, REPO, FMT, REPO, d, HERE)
    L = ["cxxflags = " + flags, "builddir = " + d,
         "rule cxx", "  command = g++ $cxxflags -MMD -MF $out.d -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc",
         "rule ar", "  command = rm -f $out && ar crs $out $in",
         "rule link", "  command = g++ -pthread %s -o $out $in -lcfitsio" % sanitize,
         "rule shim", "  command = gcc -shared -fPIC -O1 -w -o $out $in -ldl",
         "build shim.so: shim %s/harness/shim.c" % HERE,
         "rule bison", "  command = bison -d -o parse.cc $in",
         "rule flex", "  command = flex -o lexer.cc $in"]
    objs = {"lib": [], "prv": [], "prog": []}
    L.append("build parse.cc | parse.hh: bison %s/src/parse.yy" % REPO)
    L.append("build lexer.cc | lexer.hh: flex %s/src/lexer.ll" % REPO)
    for key, base, names in (("lib", "lib/marc", lib), ("prv", "src", prv), ("prog", "src", prog)):
        for n in names:
            stem = re.sub(r"\.\w+$", "", n)
            o = "%s_%s.o" % (key, stem)
            if n.endswith(".yy"):
                s = "parse.cc"
            elif n.endswith(".ll"):
                s = "lexer.cc"
            else:
                s = "%s/%s/%s" % (REPO, base, n)
            L.append("build %s: cxx %s || parse.hh lexer.hh" % (o, s))
            objs[key].append(o)
    L.append("build libMaRC.a: ar " + " ".join(objs["lib"]))
    L.append("build libprv.a: ar " + " ".join(objs["prv"]))
    L.append("build marc: link %s libprv.a libMaRC.a" % " ".join(objs["prog"]))
    targets = ["marc", "shim.so"]
    for n, f in zip(harnesses, hfiles):
        L.append("build h_%s.o: cxx %s || parse.hh lexer.hh" % (n, f))
        L.append("build %s: link h_%s.o libprv.a libMaRC.a" % (n, n))
        targets.append(n)
    L.append("default " + " ".join(targets))
    text = "\n".join(L) + "\n"
    p = os.path.join(d, "build.ninja")
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)


if __name__ == "__main__":
    print(build(sys.argv[1:]))
