"""Minimal FITS reader/writer (standard library only)."""
import math, struct

FMT = {8: ("B", 1), 16: ("h", 2), 32: ("i", 4), 64: ("q", 8), -32: ("f", 4), -64: ("d", 8)}


class FitsError(Exception):
    pass


def _card_value(c):
    """Value of a `KEYWORD = value / comment` card."""
    s = c[10:]
    t = s.lstrip()
    if t.startswith("'"):
        out, i = [], 1
        while i < len(t):
            if t[i] == "'":
                if i + 1 < len(t) and t[i + 1] == "'":
                    out.append("'")
                    i += 2
                    continue
                break
            out.append(t[i])
            i += 1
        return "".join(out).rstrip()
    v = t.split("/")[0].strip()
    if v == "T":
        return True
    if v == "F":
        return False
    if v == "":
        return None
    try:
        return int(v)
    except ValueError:
        return float(v.replace("D", "E").replace("d", "e"))


class HDU:
    def __init__(self):
        self.cards = []      # raw 80 column cards
        self.kw = {}         # last value of each keyword
        self.order = []
        self.comments, self.history = [], []
        self.data = b""
        self.raw = b""

    @property
    def bitpix(self):
        return self.kw["BITPIX"]

    @property
    def naxes(self):
        return [self.kw["NAXIS%d" % (i + 1)] for i in range(self.kw["NAXIS"])]

    def values(self):
        """All data elements, in file order."""
        f, w = FMT[self.bitpix]
        n = 1
        for a in self.naxes:
            n *= a
        if not self.naxes:
            n = 0
        return list(struct.unpack(">%d%s" % (n, f), self.data[:n * w]))

    def planes(self):
        v = self.values()
        ax = self.naxes
        n = ax[0] * ax[1]
        p = ax[2] if len(ax) > 2 else 1
        return [v[i * n:(i + 1) * n] for i in range(p)]


def _sum32(b):
    hi = 0
    b = b + b"\0" * (-len(b) % 4)
    for (w,) in struct.iter_unpack(">I", b):
        hi += w
    while hi >> 32:
        hi = (hi & 0xffffffff) + (hi >> 32)
    return hi


def read(path):
    blob = open(path, "rb").read()
    return parse(blob)


def parse(blob):
    if len(blob) % 2880 or not blob:
        raise FitsError("length %d is not a positive multiple of 2880" % len(blob))
    out, pos = [], 0
    while pos < len(blob):
        h = HDU()
        start = pos
        done = False
        while not done:
            if pos >= len(blob):
                raise FitsError("no END card")
            block = blob[pos:pos + 2880].decode("latin-1")
            pos += 2880
            for i in range(0, 2880, 80):
                c = block[i:i + 80]
                key = c[:8].strip()
                if key == "END":
                    done = True
                    break
                h.cards.append(c)
                if key == "COMMENT":
                    h.comments.append(c[8:].rstrip())
                elif key == "HISTORY":
                    h.history.append(c[8:].rstrip())
                elif c[8:10] == "= ":
                    h.kw[key] = _card_value(c)
                    h.order.append(key)
        if "BITPIX" not in h.kw:
            raise FitsError("no BITPIX")
        n = 1 if h.kw.get("NAXIS", 0) else 0
        for a in h.naxes:
            n *= a
        size = n * abs(h.bitpix) // 8
        padded = (size + 2879) // 2880 * 2880
        h.data = blob[pos:pos + padded]
        if len(h.data) != padded:
            raise FitsError("truncated data")
        pos += padded
        h.raw = blob[start:pos]
        h.header_bytes = blob[start:pos - padded]
        out.append(h)
    return out


def checksum_ok(h):
    """DATASUM and CHECKSUM of the HDU verify (FITS 4.0, appendix J)."""
    if "DATASUM" not in h.kw or "CHECKSUM" not in h.kw:
        return False
    return int(str(h.kw["DATASUM"]).strip() or -1) == _sum32(h.data) and _sum32(h.raw) == 0xffffffff


def card(key, value, comment=""):
    if isinstance(value, bool):
        v = "%20s" % ("T" if value else "F")
    elif isinstance(value, int):
        v = "%20d" % value
    elif isinstance(value, float):
        v = "%20s" % repr(value).upper()
    else:
        v = "'%-8s'" % str(value).replace("'", "''")
    c = "%-8s= %s" % (key, v)
    if comment:
        c += " / " + comment
    return ("%-80s" % c)[:80]


def make(bitpix, samples, lines, values, extra=(), naxis3=None):
    """A FITS file (bytes) holding one image; extra: (key, value) or raw str cards."""
    f, w = FMT[bitpix]
    cards = [card("SIMPLE", True), card("BITPIX", bitpix),
             card("NAXIS", 3 if naxis3 else 2), card("NAXIS1", samples), card("NAXIS2", lines)]
    if naxis3:
        cards.append(card("NAXIS3", naxis3))
    for e in extra:
        cards.append(("%-80s" % e)[:80] if isinstance(e, str) else card(*e))
    cards.append("%-80s" % "END")
    h = "".join(cards)
    h += " " * (-len(h) % 2880)
    data = struct.pack(">%d%s" % (len(values), f), *values)
    data += b"\0" * (-len(data) % 2880)
    return h.encode("latin-1") + data


def write(path, *a, **k):
    with open(path, "wb") as fh:
        fh.write(make(*a, **k))


def num(x):
    """Spelling of a number as FReal.tla wants it (a string)."""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return str(x)
    if math.isnan(x):
        return "NaN"
    if math.isinf(x):
        return "Infinity" if x > 0 else "-Infinity"
    return repr(x)


def header_only():
    """A primary header without data."""
    h = card("SIMPLE", True) + card("BITPIX", 8) + card("NAXIS", 0) + "END".ljust(80)
    return h.ljust(2880).encode("latin-1")
