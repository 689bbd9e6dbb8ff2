"""C28: no input, however damaged, makes the program crash, hang or misuse memory."""
import os, random, re, resource
from vlib import fits
from vlib.check import Batch
from vlib.marc import Sandbox
from . import inputs as I
from .c03 import walk, usable

KEPT = re.compile(rb"map|image|flat", re.I)       # statements that name files stay as they are
SIZED = re.compile(rb"(samples|lines|interval|planes)", re.I)
WORDS = [b"MAP_", b"#", b'"', b"'", b":", b"::", b"-", b"--", b"+", b"^", b"*", b"(", b")", b"((((((((", b"1e308", b"1e999", b"-1e999", b"1e-320", b"0x10",
         b"nan", b"inf", b"NaN", b"\0", b"\xff", b"\r", b"\t\t\t", b"\x1b[0m", b"%s%n", b"{}", b"{0}", b"9" * 400, b"A" * 5000, b"(" * 300 + b"1" + b")" * 300,
         b"sqrt(-1)", b"ln(0)", b"1^1^1^1", b"2^9999", b"-0", b"N", b"S", b"C", b"G", b".", b"..", b"1.2.3", b"1e", b"1e+", b"\xc3\xa9", b" "]


def damaged(rng, text):
    rows = text.split(b"\n")
    out = list(rows)
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        free = [j for j, r in enumerate(out) if not KEPT.search(r)]
        if not free:
            break
        j = rng.choice(free)
        r = out[j]
        k = rng.random()
        if k < .1:
            out.insert(rng.randrange(len(out) + 1), r)
        elif k < .2:
            del out[j]
        elif k < .27:
            i = rng.choice(free)
            out[i], out[j] = out[j], out[i]
        elif k < .3:
            out = out[:max(1, j)]
        elif k < .36:
            out.insert(j, bytes(rng.randrange(256) for _ in range(rng.randint(1, 40))).replace(b"\n", b" "))
        elif k < .65:
            w = rng.choice(WORDS)
            i = rng.choice([r.find(b":") + 1, r.find(b":") + 1, len(r), rng.randrange(len(r) + 1)])
            out[j] = r[:i] + b" " * rng.randint(0, 1) + w + (r[i:] if rng.random() < .6 else b"")
        else:
            b = bytearray(r)
            for _ in range(rng.randint(1, 3)):
                i = rng.randrange(len(b) + 1)
                m = rng.random()
                if m < .35 and i < len(b):
                    b[i] = rng.randrange(256)
                elif m < .65 and i < len(b):
                    del b[i]
                else:
                    b.insert(i, rng.randrange(256))
            out[j] = bytes(b).replace(b"\n", b" ")
    done = []
    for r in out:
        if not KEPT.search(r):
            r = r.replace(b"/", b"")
        elif r not in rows:
            continue                            # a file name came about by accident
        if SIZED.search(r):                     # sizes within reason; intervals not absurdly small
            n = re.sub(rb"[^0-9.eE+-]", b"", r.split(b":")[-1])
            try:
                v = float(n)
            except ValueError:
                v = None
            if re.search(rb"\d\d\d\d|\^|\*|[eE]\d|[eE][-+]", r.split(b":")[-1]) or (v is not None and (v > 400 or (b"nterval" in r.lower() and 0 < v < 1))):
                continue
        done.append(r)
    return b"\n".join(done) + (b"\n" if rng.random() < .9 else b"")


def card(k, v):
    return ("%-8s= %20s" % (k, v)).ljust(80)[:80].encode("latin-1", "replace")


VALUES = {"SIMPLE": ["F", "T", "'x'", "1"], "BITPIX": ["8", "16", "32", "64", "-32", "-64", "0", "7", "-8", "99999", "'16'"],
          "NAXIS": ["0", "1", "2", "3", "4", "-1", "999", "1000", "x"], "NAXIS1": ["0", "1", "8", "10", "-9", "99", "1000", "9.5", "T"],
          "NAXIS2": ["0", "1", "8", "10", "-9", "99", "1000", "", "'9'"], "NAXIS3": ["1", "2", "0", "-1"],
          "BSCALE": ["0", "1.0", "-2.5", "1E300", "1E-300", "'x'", "NaN", ""], "BZERO": ["32768", "1E308", "-1E308", "'y'", "0"],
          "BLANK": ["0", "-32768", "70000", "1.5", "'z'", "99999999999999999999"], "DATAMIN": ["1E308", "-1", "'a'", "NAN"], "DATAMAX": ["0", "-1E308", "'a'"],
          "OBJECT": ["''", "'a", "5", "'" + "x" * 66 + "'"], "AUTHOR": ["''", "'''", "'&'", "T"], "EQUINOX": ["2000.0", "'J'", "1E400"],
          "CHECKSUM": ["'0000000000000000'", "5"], "DATASUM": ["'1'", "'-1'", "1.5"], "EXTEND": ["T", "F"], "LONGSTRN": ["'OGIP 1.0'"]}
HUGE = ["100000", "2147483647", "4294967296", "9999999999", "999999999999"]
# products that do not fit into 64 bits
VAST = [("4294967296", "4294967296"), ("8589934592", "2147483648"), ("9999999999", "9999999999"), ("3037000500", "3037000500"), ("4294967297", "4294967296"), ("2", "9223372036854775807"), ("2", "9223372036854775808")]


def damaged_image(rng):
    """Bytes of a damaged image, and whether it claims to be huge."""
    t = rng.choice([8, 16, 32, -32, -64])
    w, h = rng.choice([(9, 9), (9, 9), (3, 5), (1, 1)])
    vals = [rng.randint(0, 200) if t > 0 else rng.choice([float("nan"), float("inf"), 1e300 if t < -32 else 1e30, -1.5, 3.0]) for _ in range(w * h)]
    b = fits.make(t, w, h, vals)
    head, data = b[:2880], b[2880:]
    cards = [head[i:i + 80] for i in range(0, 2880, 80)]
    end = next(i for i, c in enumerate(cards) if c.startswith(b"END"))
    cards = cards[:end]
    huge = False
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.random()
        if k < .5:
            key = rng.choice(sorted(VALUES))
            c = card(key, rng.choice(VALUES[key]))
            at = [i for i, x in enumerate(cards) if x[:8].strip() == key.encode()]
            if at and rng.random() < .9:
                cards[at[0]] = c
            else:
                cards.insert(rng.randint(min(5, len(cards)), len(cards)), c)
        elif k < .58:
            if rng.random() < .5 and len(cards) > 4:
                a, b = rng.choice(VAST)
                cards[3], cards[4] = card("NAXIS1", a), card("NAXIS2", b)
            else:
                cards[rng.choice([3, 4]) if len(cards) > 4 else 0] = card(rng.choice(["NAXIS1", "NAXIS2"]), rng.choice(HUGE))
            huge = True
        elif k < .66 and len(cards) > 1:
            del cards[rng.randrange(len(cards))]
        elif k < .74:
            i = rng.randrange(len(cards))
            c = bytearray(cards[i])
            for _ in range(rng.randint(1, 4)):
                c[rng.randrange(80)] = rng.choice([0, 32, 39, 47, 61, 255, rng.randrange(256)])
            cards[i] = bytes(c)
        elif k < .82:
            data = data[:rng.choice([0, 1, len(data) // 2, len(data) - 1, rng.randrange(len(data) + 1)])]
        elif k < .9:
            d = bytearray(data)
            for _ in range(rng.randint(1, 30)):
                if d:
                    d[rng.randrange(min(len(d), 200))] = rng.randrange(256)
            data = bytes(d)
        else:
            data += rng.choice([b"x", b"\0" * 2880, b"XTENSION" + b" " * 2872, bytes(rng.randrange(256) for _ in range(100))])
    if any(re.match(rb"NAXIS\d *= *\d{5,}", c) for c in cards):
        # the sums of what is claimed to be there take their time
        huge = True
        cards = [c for c in cards if not re.match(rb"CHECKSUM|DATASUM", c)]
    h = b"".join(cards) + (b"END".ljust(80) if rng.random() < .93 else b"")
    h += b" " * (-len(h) % 2880)
    b = h + data
    if rng.random() < .06:
        b = b[:rng.randrange(len(b) + 1)]
    return b, huge


def widened(rng, text):
    """Sound values all over: more pixels, margins, centres and scales that leave the image."""
    rows, wild = [], rng.random() < .5
    for r in text.split(b"\n"):
        k = r.split(b":")[0].strip().upper()
        if k in (b"SAMPLES", b"LINES") and rng.random() < .8:
            r = k + b": %d" % rng.randint(3, 24)
        elif k.startswith(b"NIBBLE") and rng.random() < .6:
            r = k + b": %d" % rng.choice([0, 0, 1, 2, 3, 5, 9, 14, rng.randint(0, 30)])
        elif wild and k in (b"SAMPLE_CENTER", b"LINE_CENTER", b"SAMPLE_OA", b"LINE_OA"):
            r = k + b": %.3f" % rng.choice([0, 1, 4.5, 9, rng.uniform(0, 20), -3])
        elif wild and k in (b"FOCAL_LENGTH", b"PIXEL_SCALE", b"KM_PER_PIXEL", b"ARCSEC_PER_PIX") and rng.random() < .5:
            try:
                r = k + b": %.6g" % (float(r.split(b":")[1]) * 10 ** rng.uniform(-1, 1))
            except ValueError:
                pass
        rows.append(r)
    return b"\n".join(rows)


def limits(huge):
    def pre():
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 27, 1 << 27))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if huge:
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    return pre


def record(seed, base, kind, config=None):
    rng = random.Random(seed)
    text = base if isinstance(base, bytes) else base.encode("latin-1")
    img, flat, huge = I.IMG, I.FLAT, False
    if kind != "text" and rng.random() < .8:
        text = widened(rng, text)
    if kind == "text":
        text = damaged(rng, text)
    elif kind == "image":
        img, huge = damaged_image(rng)
        if rng.random() < .3:
            img, flat = I.IMG, img
    elif kind == "sound":       # nothing is damaged, but of any size
        for f in range(2):
            w, h = (9, 9) if rng.random() < .3 else (rng.randint(1, 14), rng.randint(1, 14))
            t = rng.choice([8, 16, 32, -32, -64])
            x = fits.make(t, w, h, [(rng.randint(0, 250) if t > 0 else rng.choice([float("nan"), 0.0, 1.5, 7.0])) for _ in range(w * h)])
            if f == 0:
                img = x
                flat = fits.make(16, w, h, [rng.randint(0, 3) for _ in range(w * h)])
            elif rng.random() < .2:
                flat = x
    elif kind == "configuration":
        config = damaged(rng, config.encode("latin-1"))
    given = {"img.img": img, "flat.img": flat, "in": text}

    def rec(ctx):
        with Sandbox() as s:
            for n, d in given.items():
                s.put(n, d)
            if config is not None:
                s.put("conf/marc", config)
            env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:log_path=%s" % os.path.join(s.dir, "san"),
                   "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=99:log_path=%s" % os.path.join(s.dir, "san")}
            if config is not None:
                env["XDG_CONFIG_HOME"] = os.path.join(s.dir, "conf")
            r = s.marc(ctx.marc if huge else ctx.san, ["in"], env=env, timeout=100, preexec=limits(huge))
            left, report = [], ""
            for n in sorted(os.listdir(s.dir)):
                if n.startswith("san"):
                    report += open(os.path.join(s.dir, n), "rb").read().decode("latin-1")[:1500]
                elif n not in given and n not in ("xdg", "home", "conf"):
                    left.append(n)
            ev = [dict(op="report")] if report else []
            ev.append(dict(op="exit", ended=r.rc is not None and r.rc >= 0 and r.rc != 99, status=0 if r.rc == 0 else 1,
                           message="error" in (r.out + r.err).lower()))
            for n in left:
                try:
                    whole = all(fits.checksum_ok(x) for x in r.fits(n))
                except (fits.FitsError, OSError, KeyError, IndexError, ValueError):
                    whole = False
                ev.append(dict(op="file", name=n, state="whole" if whole else "torn"))
            return dict(cfg=dict(names=left), ev=ev, _kind=kind + ("-huge" if huge else ""),
                        _input=dict(text=text.decode("latin-1"), image=img.hex() if img is not I.IMG else "", flat=flat.hex() if flat is not I.FLAT else "",
                                    configuration=config.decode("latin-1") if isinstance(config, bytes) else config, status=r.rc,
                                    out=r.out[-400:], err=r.err[-400:], report=report))
    return rec


CONFIG = "# defaults\nGRID_INTERVAL: 20\nDATA_MIN: -100\nDATA_MAX: 400\nNIBBLE: 1\n"


def corrupt(s, rng):
    if rng.random() < .5:
        s["ev"].insert(0, dict(op="report"))
    else:
        s["ev"][0]["ended"] = False
    return s


def plan(rng, tier):
    n = 3600 if tier == "quick" else 40000
    pos, start, model = I.positions()
    recs = []
    while len(recs) < n:
        kind = rng.choice(["text", "text", "text", "text", "image", "image", "image", "image", "sound", "sound", "sound", "sound", "configuration"])
        syms = usable(walk(rng, pos, start))
        while kind in ("image", "sound") and "IMAGE" not in syms:
            syms = usable(walk(rng, pos, start))
        w = I.write(rng.getrandbits(40), syms, vary=rng.choice([0, .4]), plain=rng.random() < .6)
        recs.append(("%s-%d" % (kind, len(recs)), record(rng.getrandbits(60), "\n".join(w.text) + "\n", kind, CONFIG if kind == "configuration" else None)))
    return dict(models=[dict(module="RobustMC", cfg="RobustMC.cfg", cover=("Refuse", "Accept", "End"))], sanitized=True,
                model_stats=[model], batches=[Batch("RobustTrace", recs, corrupt=corrupt)],
                rule="sentences of the grammar with lines doubled, left out, moved, cut and bytes, numerals, words and parentheses put in; source images and "
                     "flat fields with header entries, sizes, data types and data damaged or cut short, some claiming to be huge; images of any size with their flat fields, margins, centres and scales all over; damaged configurations. "
                     "The program is built with the address and undefined behaviour sanitizers; statements that name files stay as they are")
