"""Helpers for a demonstration: runs ./_build/src/marc in a scratch directory."""
import os, shutil, struct, subprocess, sys, tempfile

MARC = os.path.join(os.getcwd(), "_build", "src", "marc")
FMT = {8: ("B", 1), 16: ("h", 2), 32: ("i", 4), 64: ("q", 8), -32: ("f", 4), -64: ("d", 8)}


class Hdu:
    pass


def read_fits(path):
    blob = open(path, "rb").read()
    out, pos = [], 0
    while pos < len(blob):
        h = Hdu()
        h.kw, h.comments, h.history, h.cards = {}, [], [], []
        end = False
        while not end:
            block = blob[pos:pos + 2880].decode("latin-1")
            pos += 2880
            for i in range(0, 2880, 80):
                c = block[i:i + 80]
                if c.startswith("END     "):
                    end = True
                    break
                h.cards.append(c)
                if c.startswith("COMMENT"):
                    h.comments.append(c[8:].rstrip())
                elif c.startswith("HISTORY"):
                    h.history.append(c[8:].rstrip())
                elif c[8:10] == "= ":
                    v = c[10:].strip()
                    if v.startswith("'"):
                        v = v[1:].split("'")[0].rstrip()
                    else:
                        v = v.split("/")[0].strip()
                        try:
                            v = int(v)
                        except ValueError:
                            try:
                                v = float(v)
                            except ValueError:
                                pass
                    h.kw[c[:8].strip()] = v
        n = 1
        ax = [h.kw["NAXIS%d" % (i + 1)] for i in range(h.kw["NAXIS"])]
        for a in ax:
            n *= a
        f, w = FMT[h.kw["BITPIX"]]
        v = struct.unpack(">%d%s" % (n, f), blob[pos:pos + n * w])
        m = ax[0] * ax[1]
        h.axes = ax
        h.planes = [list(v[i:i + m]) for i in range(0, n, m)]
        pos += (n * w + 2879) // 2880 * 2880
        out.append(h)
    return out


def fits_image(bitpix, samples, lines, values, extra=()):
    f, _ = FMT[bitpix]
    cards = ["SIMPLE  =                    T", "BITPIX  = %20d" % bitpix, "NAXIS   =                    2",
             "NAXIS1  = %20d" % samples, "NAXIS2  = %20d" % lines] + list(extra) + ["END"]
    h = "".join("%-80s" % c for c in cards)
    h += " " * (-len(h) % 2880)
    d = struct.pack(">%d%s" % (len(values), f), *values)
    return h.encode() + d + b"\0" * (-len(d) % 2880)


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="marc-demo-")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def put(self, name, data):
        with open(os.path.join(self.dir, name), "wb" if isinstance(data, bytes) else "w") as fh:
            fh.write(data)

    def run(self, *files, config=None, preexec=None, timeout=100):
        x = os.path.join(self.dir, "xdg")
        os.makedirs(x, exist_ok=True)
        c = os.path.join(x, "marc")
        if os.path.exists(c):
            os.remove(c)
        if config is not None:
            open(c, "w").write(config)
        env = dict(PATH=os.environ.get("PATH", ""), HOME=self.dir, XDG_CONFIG_HOME=x, LC_ALL="C.UTF-8")
        r = subprocess.run([MARC] + list(files), cwd=self.dir, env=env, stdin=subprocess.DEVNULL, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=preexec, timeout=timeout)
        return r

    def map(self, text, name="m.fits"):
        self.put("in.marc", text)
        r = self.run("in.marc")
        if r.returncode != 0:
            return None
        return read_fits(os.path.join(self.dir, name))

    def fits(self, name):
        return read_fits(os.path.join(self.dir, name))

    def exists(self, name):
        return os.path.exists(os.path.join(self.dir, name))


def check(ok, what):
    if not ok:
        print("FAIL:", what)
        sys.exit(1)


def near(a, b, tol):
    return a == a and b == b and abs(a - b) <= tol


def head(name="m.fits", eq=1000, pol=1000, rot="PROGRADE", dtype="DOUBLE", extra=""):
    return "MAP: %s\nBODY: X\nEQ_RAD: %s\nPOL_RAD: %s\nROTATION: %s\nDATA_TYPE: %s\n%s" % (name, eq, pol, rot, dtype, extra)


def simple(samples, lines, options=""):
    return "TYPE: SIMPLE_C\n" + ("OPTIONS:\n" + options if options else "") + "SAMPLES: %d\nLINES: %d\n" % (samples, lines)


def image(name, extra="", centre=None, lat=0, lon=0, pa=0, sun=(0, 0), rng=100000, scale="KM_PER_PIXEL: 100", after=""):
    """An IMAGE entry; extra goes before the centres, after between the optical axis and the sub-observer point."""
    return ("IMAGE: %s\n%sSAMPLE_CENTER: %s\nLINE_CENTER: %s\n%sSUB_OBSERV_LAT: %s\nSUB_OBSERV_LON: %s\nPOSITION_ANGLE: %s\n"
            "SUB_SOLAR_LAT: %s\nSUB_SOLAR_LON: %s\nRANGE: %s\n%s\n"
            % ((name, extra) + tuple(centre) + (after, lat, lon, pa) + tuple(sun) + (rng, scale)))
