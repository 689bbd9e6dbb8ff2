"""Input files for spec/InputTrace.tla (C03): positions of the grammar (spec/GrammarMC.tla) replayed into the program."""
import json, os, random, re
from vlib import fits, tlc as T
from vlib.marc import Sandbox

TOKEN = re.compile(r"\s*(?:((?:\d+(?:\.\d*)?|\.\d+)(?:[eE][-+]?\d{1,3})?)|([A-Za-z]+\d*)|(\S))")


def tokens(text):
    """Tokens of a value: numerals, names, single characters."""
    out, i = [], 0
    text = text.rstrip()
    while i < len(text):
        m = TOKEN.match(text, i)
        i = m.end()
        if m.group(1):
            s = m.group(1)
            d = [int(c) for c in s.lstrip("0")] if s.isdigit() else []
            out.append(dict(c="int" if s.isdigit() else "num", s=s, d=d))
        elif m.group(2):
            s = m.group(2)
            out.append(dict(c="name", s=s.upper() if s.upper() in MARKS else s, d=[]))
        else:
            out.append(dict(c="op", s=m.group(3), d=[]))
    return out


MARKS = {"N", "S", "C", "G", "E", "W", "KM", "AU", "CW", "CCW"}


def positions():
    """The automaton of spec/Grammar.tla as TLC explores it: {id: dict(maps, said, done, next)}, the start, statistics."""
    rc, out = T.tlc("GrammarMC.tla", "GrammarMC.cfg", workers=1)
    if rc != 0 or "No error has been found" not in out:
        raise T.ModelError("GrammarMC: " + out[-3000:])
    pos, start = {}, None
    for line in out.splitlines():
        if line.startswith('"POS '):
            p = json.loads(json.loads(line)[4:])
            pos[p["id"]] = p
            p["next"] = {e["k"]: e["to"] for e in p["next"]}
            if not p["said"]:
                start = p["id"]
    for p in pos.values():      # the model stops at two entries
        p["next"] = {k: j for k, j in p["next"].items() if j in pos}
    gen, dist = T.stats(out)
    # shortest completion of every position
    comp = {i: [] for i, p in pos.items() if p["done"]}
    frontier = list(comp)
    rev = {}
    for i in sorted(pos):
        for k in sorted(pos[i]["next"]):
            rev.setdefault(pos[i]["next"][k], []).append((i, k))
    while frontier:
        new = []
        for j in frontier:
            for i, k in rev.get(j, ()):
                if i not in comp:
                    comp[i] = [k] + comp[j]
                    new.append(i)
        frontier = new
    for i, p in pos.items():
        p["comp"] = comp[i]
    return pos, start, dict(module="GrammarMC", cfg="GrammarMC.cfg", states=dist, transitions=gen, actions={"Say": gen})


EXPR_BAD = ["", "x", "1/0", "5/(2-2)", "ln(-1)", "sqrt(-1)", "acos(2)", "1e999", "(5", "5)", "5 +", "* 5", "5 5", "5 , 5", "sin 1", "foo(1)",
            "1e200*1e200", "5 $", "()", "5 ^", "5//2", "5 E 5", "2(3)", "0/0", "exp(1000)", "ln(0)", "1 = 1", "5;"]
LAT_GOOD = ["90", "-90", "0", "45", "9e1", "89.9999999", "90 N", "90 S", "0 S", "0 N", "-0", "45 G", "-45 G", "30 N G", "30 S C", "(45)",
            "2*45", "180/2", "100-10", "3^2*10", ".5", "5.", "-90 C", "90 N C", "90.000000000000001", "- -45", "-(45)", "+45", "45 n", "7 s g",
            "1e1", "90-1e-9", "-1e-300", "2^6", "20 + 2*5", "0.0 S"]
LAT_BAD = ["90.0001", "-90.0000001", "91 N", "-1 N", "-0.0001 S", "-10 S", "1e3", "90 E", "45 C G", "45 G N", "N", "45 N S", "45 KM", "45 C N",
           "90.00000000000003", "-90.00000000000003 C", "90+1e-10", "2*45.5", "180", "360", "90.1 S", "-91 G", "95 G", "45 W", "45 CW", "-5 N G"]
LON_GOOD = ["0", "360", "-360", "359.9999", "360 E", "-360 W", "0 E", "-0.5 W", "45 W", "180", "2*180", "3.6e2", "-90 E", "720/2", "10 e", "10 w",
            "-360 E", "360.00000000000001", "400-40"]
LON_BAD = ["360.0001", "-360.0000001", "361 E", "400 W", "1e4", "45 N", "45 C", "45 E W", "45 KM", "E", "361", "-361", "2*180.5", "360.0000000000001",
           "-360.0000000000001 W", "720", "10 CCW", "540 E"]
PA_GOOD = ["0", "360", "-360", "90 CW", "90 CCW", "-45 CW", "360 CW", "3.6E2", "180/2", "-360 CCW", "10 cw"]
PA_BAD = ["360.0001", "-361", "400 CW", "-400 CCW", "45 W", "CW", "45 CW CCW", "360.0000000000001", "1e9 CW", "45 E", "90 C W"]
RANGE_GOOD = ["7e6", "7e6 KM", "0.05 AU", "7000000.5", "1e7 km", "2^23", "0.06 au"]
RANGE_BAD = ["7e6 CM", "7e6 KM AU", "KM", "AU", "7e6 N"]
RANGE_IMG_BAD = ["66854", "0", "-7e6", "66853", "1000", "1e-3 KM", "1e-9 AU", "-1 AU"]
POS_BAD = ["0", "-5", "-0", "1-1", "-1e-300", "0.0", "-0.5", "sin(0)", "5 KM", "0*7"]
COUNT_BAD = ["0", "-1", "-3", "2.5", "1e1", "2.", "+0", "-0", "2*2", "(2)", "99999999999999999999", "9223372036854775808", "x", "", "2 2", "--2", "+-2", "1/2", ".5"]
NIB_GOOD = ["0", "1", "2", "+1", "00", "-0", "+2"]
NIB_BAD = ["-1", "1.5", "1e0", "-2", "x", "", "1+1", "9223372036854775808", "(1)", "-99999999999999999999"]
NIB_BIG = ["9", "10", "100000", "9223372036854775807", "2147483648", "4294967296", "18446744073709551"]

BLANKS = {"BYTE": (["0", "255", "7", "+12", "-0", "007"], ["256", "-1", "1.5", "1e2", "300", "-255", "65536", "x", ""]),
          "SHORT": (["0", "-32768", "32767", "-1", "+5"], ["32768", "-32769", "65535", "1.5", "1e3", "100000", ""]),
          "LONG": (["-2147483648", "2147483647", "0", "-7"], ["2147483648", "-2147483649", "4294967295", "1e4", "99999999999"]),
          "LONGLONG": (["-9223372036854775808", "9223372036854775807", "0", "4294967296", "-5"],
                       ["9223372036854775808", "-9223372036854775809", "1e5", "99999999999999999999999"]),
          "FLOAT": ([], ["0", "-1", "5"]), "DOUBLE": ([], ["0", "-1", "5"]), "": ([], ["0", "-1", "5"])}

GRID_GOOD = ["10", "0.5", "5", "90", "400", "7.5", "100/3", "33"]

DEFAULT = {"EQ_RAD": "71492", "POL_RAD": "66854", "FLATTENING": "0.0649", "DATA_OFFSET": "2.5", "DATA_SCALE": "0.5", "GRID_INTERVAL": "30",
           "LAT_GRID_INTERVAL": "30", "LON_GRID_INTERVAL": "45", "SUB_OBSERV_LAT": "10", "SUB_OBSERV_LON": "40", "SUB_SOLAR_LAT": "-5",
           "SUB_SOLAR_LON": "60", "LAT_AT_CENTER": "5", "LON_AT_CENTER": "50", "SAMPLE_CENTER": "4.5", "LINE_CENTER": "4.5",
           "SAMPLE_OA": "4.5", "LINE_OA": "4.5", "POSITION_ANGLE": "20", "KM_PER_PIXEL": "18000", "ARCSEC_PER_PIX": "500",
           "FOCAL_LENGTH": "1500", "PIXEL_SCALE": "65.6", "RANGE": "7e6", "EMI_ANG_LIMIT": "80", "MINNAERT": "0.8", "MAX_LAT": "-20",
           "LO_LAT": "-30", "HI_LAT": "40", "LO_LON": "20", "HI_LON": "200", "NIBBLE": "1", "NIBBLE_LEFT": "1", "NIBBLE_RIGHT": "1",
           "NIBBLE_TOP": "1", "NIBBLE_BOTTOM": "1", "DATA_MIN": "-50", "DATA_MAX": "55"}
STRINGS = {"AUTHOR": "A. U. Thor", "ORIGIN": "Here and there", "COMMENT": " a remark: of sorts", "XCOMMENT": "another # one", "BODY": "Testbody",
           "FLAT_FIELD": "flat.img", "IMAGE": "img.img"}
BARE = {"OPTIONS": "OPTIONS:", "CENTRIC": "CENTRIC", "GRAPHIC": "GRAPHIC", "LATITUDE": "LATITUDE:", "LONGITUDE": "LONGITUDE", "MU": "MU:",
        "MU0": "MU0:", "PHASE": "PHASE:"}
WRONG_WORDS = ["GRID=MAYBE", "GRID=", "TYPE=PERSPECTIVE", "TYPE=SINUSOID", "TYPE=", "TYPE=FLAT", "DATA_TYPE=INT", "DATA_TYPE=", "DATA_TYPE=16",
               "ROTATION=", "ROTATION=SIDEWAYS", "AVERAGING=SOME", "AVERAGING=", "POLE=E", "POLE=", "INVERT=NONE", "INVERT=",
               "INTERPOLATE=1", "REMOVE_SKY=", "LATITUDE_TYPE=ROUND", "LATITUDE_TYPE=", "TERMINATOR=ON", "GEOM_CORRECT=",
               "?MAP m.fits", "?SAMPLES 4", "?LINES; 4", "?WIDTH: 4", "?}", "?$", "?STD_LAT: 40", "?PHOTO", "?LONGITUDE:", "?123", "?:", "?LATITUDE",
               "?MU", "?OPTIONS", "?XCOMMENT", "?DATA_TYPE BYTE"]
SYNONYMS = {"YES": ["YES", "Y", "yes"], "NO": ["NO", "N", "no"], "N": ["N", "NORTH", "north"], "S": ["S", "SOUTH", "South"],
            "CENTRIC": ["CENTRIC", "CENTRIC_LAT", "centric"], "GRAPHIC": ["GRAPHIC", "GRAPHIC_LAT", "Graphic"]}


class Writer:
    """Gives statements their values and spelling.  bad: chance of a value outside its domain."""
    def __init__(self, rng, vary=0.0, bad=0.0, plain=True):
        self.rng, self.vary, self.bad, self.plain = rng, vary, bad, plain
        self.nmaps = 0
        self.ev, self.text = [], []
        self.at = []        # line of each statement
        self.type = ""
        self.ctx = ""
        self.planes = None
        self.count = 0
        self.nbad = 0
        self.force, self.nvalues, self.delta, self.numbers = None, 0, None, None
        self.lat = self.range = self.shape = None
        self.numbering = self.centre_before = self.safe_shape = False

    def pick(self, good, bad, default):
        if self.force is not None and len(self.ev) == self.force[0]:
            vs = list(dict.fromkeys((good or []) + (bad or [])))
            self.nvalues = len(vs)
            return vs[self.force[1] % len(vs)] if vs else default
        r = self.rng.random()
        if bad and r < self.bad and self.nbad < 2:
            self.nbad += 1
            return self.rng.choice(bad)
        if good and r < self.bad + self.vary:
            return self.rng.choice(good)
        return default

    def value(self, sym, rest):
        d = DEFAULT.get(sym)
        img = self.ctx == "IMAGE"
        mild = ["10", "-20", "15 N", "12 S", "-12 G", "2*8", "9 N G"]
        if sym in ("SUB_OBSERV_LAT", "SUB_SOLAR_LAT", "LAT_AT_CENTER", "MAX_LAT"):
            good = LAT_GOOD
            if img or sym == "LAT_AT_CENTER":
                good = mild
            if sym == "SUB_OBSERV_LAT" and "LAT_AT_CENTER" in rest[:8]:
                good = mild
            if sym == "MAX_LAT":
                good = [x for x in LAT_GOOD if "90" not in x and x not in ("9e1", "2*45", "180/2", "100-10", "3^2*10", "89.9999999")]
            return self.pick(good, LAT_BAD + EXPR_BAD, d)
        if sym in ("LO_LAT", "HI_LAT"):
            lo = sym == "LO_LAT"
            if self.lat is None:
                good = ["-90", "-45.5", "45 S", "-60 G", "0 S", "-1e1"] if lo else ["90", "45.5", "45 N", "60 G", "2*30", "50 N C"]
                v = self.pick(good, LAT_BAD + EXPR_BAD, d)
                self.lat = v
                return v
            # the other end: boundary of the order
            good = ["-90", "-89", "80 S"] if lo else ["90", "89", "80 N"]
            bad = LAT_BAD + EXPR_BAD + ([self.lat] * 8 if self.lat else []) + (["90", "90 N"] * 4 if lo else ["-90", "90 S"] * 4)
            return self.pick(good, bad, "-88" if lo else "88")
        if sym in ("SUB_OBSERV_LON", "SUB_SOLAR_LON", "LON_AT_CENTER", "LO_LON", "HI_LON"):
            good = LON_GOOD
            if sym == "LON_AT_CENTER":
                good = None
            elif sym == "SUB_OBSERV_LON" and (img or "LON_AT_CENTER" in rest[:8] or self.centre_before):
                good = ["40", "35.5", "-320", "2*20"]
            return self.pick(good, LON_BAD + EXPR_BAD, d)
        if sym == "POSITION_ANGLE":
            return self.pick(PA_GOOD, PA_BAD + EXPR_BAD, d)
        if sym == "RANGE":
            return self.pick(RANGE_GOOD, RANGE_BAD + EXPR_BAD + (RANGE_IMG_BAD * 3 if img else []), d)
        if sym in ("KM_PER_PIXEL", "ARCSEC_PER_PIX", "FOCAL_LENGTH", "PIXEL_SCALE"):
            return self.pick([d + "*1.01", d + ".0" if "." not in d else d], POS_BAD + EXPR_BAD, d)
        if sym.endswith("GRID_INTERVAL"):
            return self.pick(GRID_GOOD, POS_BAD + EXPR_BAD, d)
        if sym == "EMI_ANG_LIMIT":
            return self.pick(["80", "0.5", "89.99999", "45*1.5", "1e-3"], ["0", "90", "-80", "-0.5", "91", "90.0001", "-90", "1e3", "180"] * 2 + EXPR_BAD, d)
        if sym in ("EQ_RAD", "POL_RAD", "FLATTENING"):
            first = self.shape is None
            bad = EXPR_BAD + ["0", "-1", "-0", "-71492"] * 3
            if sym == "FLATTENING":
                bad = EXPR_BAD + ["1", "-0.1", "1.5", "-1e-9", "1.0000001", "2"] * 3
                good = ["0", "0.1", "1/16", "0.5", "1-0.9"]
            elif sym == "EQ_RAD":
                good = ["71492", "7.1492e4", "66854" if self.shape else "71500"]
                if not first and self.shape[0] == "POL_RAD":
                    bad += ["66853.999", "1", "60000", "66000"] * 3
            else:
                good = ["66854", "6.6854E4", "71492" if self.shape else "66000"]
                if not first and self.shape[0] == "EQ_RAD":
                    bad += ["71600", "1e6", "71500.001", "80000"] * 3
            if self.safe_shape:
                good = None
            v = self.pick(good, bad, d)
            if first:
                self.shape = (sym, v)
            return v
        if sym in ("DATA_OFFSET", "SAMPLE_OA", "LINE_OA", "MINNAERT", "SAMPLE_CENTER", "LINE_CENTER"):
            good = {"DATA_OFFSET": ["0", "-3", "1e3", "5/2"], "MINNAERT": ["0", "-1", "1e2"]}.get(sym, ["4.5", "9/2", "4.5e0"])
            return self.pick(good, EXPR_BAD, d)
        if sym == "DATA_SCALE":
            return self.pick(["1", "0.25", "2", "1/8"], EXPR_BAD, d)
        if sym == "DATA_BLANK":
            good, bad = BLANKS.get(self.type, BLANKS[""])
            dflt = good[0] if good else "0"
            return self.pick(good, bad, dflt)
        if sym in ("SAMPLES", "LINES"):
            return self.pick(["1", "3", "+2", "03", "5"], COUNT_BAD, "2")
        if sym == "PLANES":
            n = 0
            for s in rest:
                if s == "MAP":
                    break
                n += s == "PLANE"
            self.planes = n
            if self.delta is not None:     # so many more or fewer than there are
                return str(n + self.delta)
            v = self.pick(None, COUNT_BAD + [str(n + 1), str(max(0, n - 1)), str(n + 5)] * 4, str(n))
            return v
        if sym == "PLANE":
            self.count += 1
            if self.planes is not None and self.numbers is not None:    # numbered out of turn
                n = max(1, self.planes + (self.delta or 0))
                return "%d" % (self.count if self.rng.random() >= self.numbers else self.rng.randint(1, n))
            if self.planes is not None and self.numbering:
                v = self.pick(None, ["%d" % (self.count + 1), "%d" % (self.count - 1), "-1", "0", "%d.0" % self.count, "x"], "%d" % self.count)
                return v
            return self.pick(None, ["1", "0", "%d" % self.count, "x"] if self.planes is None else None, "")
        if sym in ("DATA_MIN", "DATA_MAX"):
            mn = sym == "DATA_MIN"
            if self.range is None:
                v = self.pick(["-50", "-40.5", "-1e1", "5-50"] if mn else ["50", "44.5", "2*25", "5"], EXPR_BAD, "-50" if mn else "55")
                self.range = v
                return v
            bad = EXPR_BAD + [self.range] * 8 + (["60", "55.0001", "70"] if mn else ["-60", "-50.0001", "-55"]) * 3
            return self.pick(["-60", "-51"] if mn else ["60", "56"], bad, "-55" if mn else "57")
        if sym.startswith("NIBBLE"):
            return self.pick(NIB_GOOD, NIB_BAD + NIB_BIG, d)
        raise KeyError(sym)

    def spell(self, s):
        if self.plain:
            return s
        r = self.rng.random()
        return s.lower() if r < .2 else s.title() if r < .3 else s

    def gap(self):
        if self.plain:
            return " "
        return self.rng.choice([" ", "  ", "\t", "", " \t "])

    def put(self, line, comment=True):
        if not self.plain:
            if self.rng.random() < .05:
                self.text.append(self.rng.choice(["", "   ", "# a remark", "\t# MAP: x", "#"]))
            if self.rng.random() < .3:
                line = self.rng.choice(["  ", "\t", " \t "]) + line
            if comment and self.rng.random() < .15:
                line += self.rng.choice(["  # a remark", " # 5", "\t#", "   "])
        self.text.append(line)

    def say(self, sym, rest=()):
        t, w, h = [], 0, 0
        if sym == "MAP":
            self.nmaps += 1
            self.type, self.planes, self.count, self.lat, self.range, self.shape, self.ctx = "", None, 0, None, None, None, "MAP"
            self.numbering = self.rng.random() < .7
            self.centre_before = False
            # the statements of this entry
            mine = []
            for s in rest:
                if s == "MAP":
                    break
                mine.append(s)
            self.safe_shape = "IMAGE" in mine or "LAT_AT_CENTER" in mine or "RANGE" in mine
            self.put("%s:%sm%d.fits" % (self.spell("MAP"), self.gap(), self.nmaps))
        elif sym in STRINGS:
            if sym == "IMAGE":
                self.ctx, w, h = "IMAGE", 9, 9
                self.centre_before = False
            txt = STRINGS[sym]
            com = sym in ("AUTHOR", "ORIGIN", "COMMENT", "XCOMMENT")
            if com and not self.plain and self.rng.random() < .2:
                txt = self.rng.choice(["", " ", "MAP: x", "#", ":", "caf\xe9 \"quoted\" 'x'", "x" * 71, "END"])
            self.put("%s:%s%s" % (self.spell(sym), "" if com else self.gap(), txt), comment=not com)
        elif sym in BARE:
            if sym in ("MU", "MU0", "PHASE", "LATITUDE", "LONGITUDE"):
                self.ctx = sym
            s = BARE[sym]
            if sym in SYNONYMS and not self.plain:
                s = self.rng.choice(SYNONYMS[sym])
            if sym in ("CENTRIC", "GRAPHIC") and self.text and self.text[-1].strip().upper() == "LATITUDE:" and self.rng.random() < .7:
                self.text[-1] += " " + s
            else:
                self.put(self.spell(s))
        elif sym.startswith("?"):
            self.put(sym[1:])
        elif "=" in sym:
            k, wd = sym.split("=")
            if k == "DATA_TYPE":
                self.type = wd
            if k == "TYPE":
                self.ctx = sym
            if not self.plain:
                wd = self.rng.choice(SYNONYMS.get(wd, [wd]))
                wd = self.spell(wd)
                if k == "TYPE" and self.rng.random() < .3:
                    k = "PROJECTION"
            self.put("%s:%s%s" % (self.spell(k), self.gap(), wd))
        else:
            if sym == "PLANE":
                self.ctx, self.range = "PLANE", None
            v = self.value(sym, rest)
            if sym == "LAT_AT_CENTER":
                self.centre_before = True
            t = tokens(v)
            self.put("%s:%s%s" % (self.spell(sym), self.gap(), v))
        self.ev.append(dict(op="say", sym=sym, t=t, w=w, h=h))
        self.at.append(sum(x.count("\n") + 1 for x in self.text))


IMG = fits.make(16, 9, 9, [(7 * j) % 211 + 1 for j in range(81)])
FLAT = fits.make(16, 9, 9, [(j % 2) + 1 for j in range(81)])


def write(seed, syms, vary=0.0, bad=0.0, plain=True, force=None, delta=None, numbers=None):
    w = Writer(random.Random(seed), vary, bad, plain)
    w.force, w.delta, w.numbers = force, delta, numbers
    for i, s in enumerate(syms):
        w.say(s, syms[i + 1:])
    return w


def values_at(syms, i):
    """Number of values the i-th statement may be given."""
    return write("v", syms, force=(i, 0)).nvalues


def record(seed, syms, kind, **kw):
    w = write(seed, syms, **kw)
    text = "\n".join(w.text) + "\n"

    def rec(ctx):
        with Sandbox() as s:
            given = {"img.img": IMG, "flat.img": FLAT, "in": text.encode("latin-1")}
            for n, d in given.items():
                s.put(n, d)
            r = s.marc(ctx.marc, ["in"])
            left = [n for n in os.listdir(s.dir) if n not in given and n not in ("xdg", "home")]
            made = 0
            for j in range(w.nmaps):
                n = "m%d.fits" % (j + 1)
                if n in left:
                    try:
                        hs = r.fits(n)
                        made += all(fits.checksum_ok(x) for x in hs)
                    except (fits.FitsError, KeyError, IndexError, ValueError):
                        pass
            ev = w.ev + [dict(op="end", ok=r.rc == 0, message="error" in (r.out + r.err).lower(), made=made, left=len(left))]
            return dict(cfg=dict(maps=w.nmaps), ev=ev, _kind=kind,
                        _input=dict(text=text, status=r.rc, out=r.out[-400:], err=r.err[-300:]))
    return rec


def corrupt(s, rng):
    e = s["ev"][-1]
    e["ok"] = not e["ok"]
    e["made"] = s["cfg"]["maps"] if e["ok"] else 0
    return s
