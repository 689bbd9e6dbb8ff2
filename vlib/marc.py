"""Running the real marc program in a scratch directory."""
import os, shutil, subprocess, tempfile
from . import build as B, fits


class Run:
    """Result of one marc run: status, output, files left in the directory."""
    def __init__(self, rc, out, err, d, timed_out=False):
        self.rc, self.out, self.err, self.dir, self.timed_out = rc, out, err, d, timed_out

    def fits(self, name):
        return fits.read(os.path.join(self.dir, name))

    def exists(self, name):
        return os.path.exists(os.path.join(self.dir, name))


class Sandbox:
    """Scratch directory for marc runs; removed on exit."""
    def __init__(self):
        base = os.path.join(B.BUILD, "scratch")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-", dir=base)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def put(self, name, data):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb" if isinstance(data, bytes) else "w") as fh:
            fh.write(data)
        return p

    def marc(self, exe, args, config=None, env=None, timeout=40, preexec=None):
        """config: text of the user configuration file, or None for no file."""
        cfgdir = os.path.join(self.dir, "xdg")
        os.makedirs(cfgdir, exist_ok=True)
        p = os.path.join(cfgdir, "marc")
        if os.path.exists(p):
            os.remove(p)
        if config is not None:
            with open(p, "w") as fh:
                fh.write(config)
        e = {"PATH": os.environ.get("PATH", ""), "LC_ALL": "C.UTF-8", "HOME": os.path.join(self.dir, "home"),
             "XDG_CONFIG_HOME": cfgdir, "TZ": "UTC"}
        e.update(env or {})
        return self.bare(exe, args, e, self.dir, timeout, preexec)

    def bare(self, exe, args, e, cwd, timeout=40, preexec=None):
        """With exactly this environment."""
        try:
            r = subprocess.run([exe] + list(args), cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               preexec_fn=preexec)
            return Run(r.returncode, r.stdout.decode("latin-1"), r.stderr.decode("latin-1"), self.dir)
        except subprocess.TimeoutExpired:
            return Run(None, "", "timeout", self.dir, True)


def body(eq=None, pol=None, flat=None, prograde=True, name="Testbody"):
    t = "BODY: %s\n" % name
    if eq is not None:
        t += "EQ_RAD: %s\n" % eq
    if pol is not None:
        t += "POL_RAD: %s\n" % pol
    if flat is not None:
        t += "FLATTENING: %s\n" % flat
    return t + "ROTATION: %s\n" % ("PROGRADE" if prograde else "RETROGRADE")


def lines(d):
    return "".join("%s: %s\n" % (k, v) for k, v in d)


def map_text(name, body_text, proj, opts="", samples=4, lines_=4, planes=("LATITUDE: CENTRIC",), dtype=None,
             blank=None, grid=None, head="", data_extra="", nplanes=None):
    """One map entry.  planes: text of each plane (after PLANE:)."""
    t = "MAP: %s\n%s%s%s" % (name, head, body_text, data_extra)
    if dtype:
        t += "DATA_TYPE: %s\n" % dtype
    if blank is not None:
        t += "DATA_BLANK: %s\n" % blank
    if grid is not None:
        t += grid
    t += "TYPE: %s\n" % proj
    if opts:
        t += "OPTIONS:\n" + opts
    if nplanes:
        t += "PLANES: %d\n" % nplanes
    t += "SAMPLES: %d\nLINES: %d\n" % (samples, lines_)
    for i, p in enumerate(planes):
        t += ("PLANE: %d\n" % (i + 1) if nplanes else "PLANE:\n") + p
        if not t.endswith("\n"):
            t += "\n"
    return t


PLANE_LATLON = ("LATITUDE: CENTRIC\n", "LONGITUDE\n")
