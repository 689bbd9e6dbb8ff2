"""C25: checksums stored in source files."""
import os, struct
from vlib import fits
from vlib.check import Batch
from vlib.marc import Sandbox, map_text, body
from .session import GEOM, fingerprint

KINDS = ["none", "both", "both", "data", "unit", "wrong-data", "wrong-data", "wrong-head", "wrong-datasum", "wrong-checksum",
         "wrong-data-datasum", "wrong-data-checksum", "wrong-head-datasum", "blank"]


def encode(total):
    """The 16 characters that stand for the complement of a sum (FITS 4.0, appendix J)."""
    value = ~total & 0xffffffff
    out = [0] * 16
    exclude = set(range(0x3a, 0x41)) | set(range(0x5b, 0x61))
    for i in range(4):
        byte = value >> (24 - 8 * i) & 255
        ch = [byte // 4 + 48] * 4
        ch[0] += byte % 4
        while any(c in exclude for c in ch):
            for j in (0, 2):
                if ch[j] in exclude or ch[j + 1] in exclude:
                    ch[j] += 1
                    ch[j + 1] -= 1
        for j in range(4):
            out[4 * j + i] = ch[j]
    s = "".join(map(chr, out))
    return s[-1] + s[:-1]


def source(rng, kind, side):
    """(bytes, unit) of an image that stores checksums in one of the ways of KINDS."""
    bitpix = rng.choice([8, 16, 32, -32, -64])
    vals = [rng.randint(1, 200) for _ in range(side * side)]
    extra = ["XNOTE   = 'aaaa    '"]
    datasum = kind in ("both", "data", "wrong-data", "wrong-head", "wrong-datasum", "wrong-checksum", "wrong-data-datasum")
    checksum = kind in ("both", "unit", "wrong-data", "wrong-head", "wrong-checksum", "wrong-data-checksum", "wrong-datasum")
    if kind == "wrong-head-datasum":
        datasum = True          # which does not cover the header
    if kind == "blank":
        extra += ["CHECKSUM= '        '", "DATASUM = '        '"]
    if checksum:
        extra.append("CHECKSUM= '%s'" % ("0" * 16))
    if datasum:
        extra.append("DATASUM = '%-10s'" % "@")
    if rng.random() < .5:
        extra.append("COMMENT trailing")
    blob = fits.make(bitpix, side, side, vals, extra)
    h = fits.parse(blob)[0]
    n = len(h.header_bytes)
    total = fits._sum32(h.data)
    if datasum:
        stored = total ^ rng.choice([1, 0x10000, 0x80000000]) if kind == "wrong-datasum" else total
        blob = blob.replace(b"DATASUM = '@         '", ("DATASUM = '%-10d'" % stored).encode())
    if checksum:
        text = encode(fits._sum32(blob))
        at = blob.index(b"CHECKSUM= '") + 11
        blob = blob[:at] + text.encode() + blob[at + 16:]
        assert fits._sum32(blob) in (0, 0xffffffff)
        if kind == "wrong-checksum":
            k = rng.randrange(16)
            c = chr(ord(text[k]) + 1) if text[k] not in "9Zz" else chr(ord(text[k]) - 1)
            blob = blob[:at + k] + c.encode() + blob[at + k + 1:]
    if kind.startswith("wrong-data") and kind != "wrong-datasum":
        w = abs(bitpix) // 8
        k = rng.choice([0, side * side - 1, rng.randrange(side * side)])
        f = fits.FMT[bitpix][0]
        new = vals[k] % 200 + 1
        blob = blob[:n + k * w] + struct.pack(">" + f, new) + blob[n + (k + 1) * w:]
        if rng.random() < .1:       # the padding counts too
            blob = blob[:-1] + b"\1"
    if kind.startswith("wrong-head"):
        blob = blob.replace(b"'aaaa    '", rng.choice([b"'aaab    '", b"'baaa    '", b"'aaaa   b'"]))
    return blob, unit(blob)


def unit(blob):
    h = fits.parse(blob)[0]
    words = lambda b: [[w >> 16, w & 65535] for (w,) in struct.iter_unpack(">I", b)]
    ds = str(h.kw.get("DATASUM", "")).strip()
    return dict(head=words(h.header_bytes), data=words(h.data), datasum=[int(ds) >> 16, int(ds) & 65535] if ds else [],
                checksum=bool(str(h.kw.get("CHECKSUM", "")).strip()))


def bare(blob):
    """The same image without stored sums."""
    for k in (b"CHECKSUM= ", b"DATASUM = "):
        blob = blob.replace(k, b"COMMENT   ")
    return blob


def scenario(rng, n):
    images = rng.choice([1, 1, 2])
    planes, files, units = [], {}, []
    side = 9
    for i in range(images):
        names = ["i%d.img" % i] + (["f%d.flat" % i] if rng.random() < .4 else [])
        for f in names:
            b, u = source(rng, rng.choice(KINDS), side)
            files[f] = b
            units.append(dict(name=f, **u))
        g = GEOM
        if len(names) > 1:
            g = g.replace("SUB_OBSERV_LAT: 0", "FLAT_FIELD: %s\nSUB_OBSERV_LAT: 0" % names[1], 1)
        planes.append("IMAGE: %s\n" % names[0] + g)
    if images == 2 and rng.random() < .5:
        planes = ["".join(planes)]      # a mosaic
    text = map_text("m.fits", body(eq="71492", pol="66854"), "SIMPLE_C", "LO_LON: 60\nHI_LON: 140\n", rng.randint(2, 8), rng.randint(2, 8), planes,
                    dtype="DOUBLE")

    def rec(ctx):
        with Sandbox() as s:
            s.put("in.marc", text)
            fp = []
            for treat in (bare, lambda b: b):
                for k, v in files.items():
                    s.put(k, treat(v))
                r = s.marc(ctx.marc, ["in.marc"])
                p = os.path.join(s.dir, "m.fits")
                fp.append(fingerprint(p))
                if os.path.exists(p):
                    os.remove(p)
            log = [x for x in (r.out + "\n" + r.err).split("\n") if "[warn" in x or "[error" in x or "[critical" in x]
            ev = [dict(op="said", name=k, warned=any(k in x for x in log),
                       sums=any(k in x and "checksum" in x.lower() for x in log)) for k in sorted(files)]
            ev.append(dict(op="exit", ok=r.rc == 0, same=fp[0] is not None and fp[0] == fp[1]))
            return dict(cfg=dict(units=units), ev=ev, _kind="sums", _input=dict(text=text, files=sorted(files), status=r.rc,
                        log=log[:10], units=[{k: u[k] for k in ("name", "datasum", "checksum")} for u in units]))
    return rec


def corrupt(s, rng):
    e = rng.choice(s["ev"])
    if e["op"] == "exit":
        e["same"] = False
    else:
        e["warned"], e["sums"] = not e["warned"], not e["warned"]
    return s


def plan(rng, tier):
    n = 160 if tier == "quick" else 2500
    return dict(models=[dict(module="IntegrityMC", cfg="IntegrityMC.cfg", cover=("AlterData", "AlterHead", "Use"))],
                batches=[Batch("IntegrityTrace", [("sum-%d" % i, scenario(rng, i)) for i in range(n)], corrupt=corrupt)],
                rule="images and flat fields of every data type that store data and unit sums, one of them or none; then a "
                     "value, a header entry or a stored sum is altered")
