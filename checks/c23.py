"""C23: image positions and body coordinates are inverse to each other."""
import math, subprocess
from vlib.check import Batch
from vlib.fits import num
from . import proj, maps

FEATS = ["gll", "oa", "latlon", "offset", "emi", "term"]


def observation(rng, b):
    n, m = rng.randint(2, 30), rng.randint(2, 30)
    if rng.random() < .1:
        n = m = rng.choice([401, 800])
    _, im, _ = maps.image(rng, b, "x", n=n, m=m, values=[0.0] * (n * m),
                          feats=[f for f in FEATS if rng.random() < .5] + ["wide"] * (rng.random() < .12))
    return im


def recorder(rng, i):
    b = proj.pick_body(rng)
    im = observation(rng, b)
    im.pop("data")
    ola, olo = maps.nearby(im)
    f = lambda k: float(im[k])
    qs = []
    # points: anywhere, near the sub-observer point, the limb, the poles
    for _ in range(10):
        r = rng.random()
        if r < .5:
            la, lo = ola + rng.uniform(-70, 70), olo + rng.uniform(-80, 80)
            la = max(-90, min(90, la))
        elif r < .6:
            la, lo = ola, olo
        elif r < .7:
            la, lo = rng.choice([90, -90, 0]), rng.uniform(0, 360)
        else:
            la, lo = rng.uniform(-90, 90), rng.uniform(0, 360)
        qs.append((rng.choice("ST"), maps.sig(la), maps.sig(lo % 360)))
    cs, cl = (f("cs"), f("cl")) if im["centre"] == "pixel" else (im["n"] / 2, im["m"] / 2)
    for _ in range(12):
        r = rng.random()
        w = max(im["n"], im["m"])
        if r < .4:
            x, z = cs + rng.gauss(0, w / 3), cl + rng.gauss(0, w / 3)
        elif r < .5:
            x, z = cs, cl
        else:
            x, z = rng.uniform(-2, im["n"] + 2), rng.uniform(-2, im["m"] + 2)
        qs.append((rng.choice("PR"), maps.sig(x), maps.sig(z)))
    rng.shuffle(qs)
    mask = im["n"] * im["m"] < 1000

    def rec(ctx):
        sc = {"km": 0, "arcsec": 1, "focal": 2}[im["scale"]]
        head = [repr(b["eq"]), repr(b["pol"]), int(b["pro"]), im["n"], im["m"], im["obsLat"], im["obsLon"],
                im["range"], im["pa"], im["sunLat"], im["sunLon"], int(im["centre"] == "latlon"),
                im["clat"] if im["centre"] == "latlon" else im["cs"],
                im["clon"] if im["centre"] == "latlon" else im["cl"], int(im["oas"] != ""), im["oas"] or 0,
                im["oal"] or 0, sc, im["sv"] if sc < 2 else im.get("fl", im["sv"]), 1, int(im["gll"]),
                int(im["emi"] != ""), im["emi"] or 0, int(im["term"])]
        inp = " ".join(map(str, head)) + "\n" + "".join("%s %r %r\n" % q for q in qs) + ("M\n" if mask else "")
        try:
            r = subprocess.run([ctx.exe("viewgeom")], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, timeout=60)
            out = r.stdout.splitlines()
        except subprocess.TimeoutExpired:
            out = []
        out = [x[1:] for x in out if x.startswith("@")]     # the library logs to the same stream
        ev = [dict(op="setup", ok=bool(out) and out[0] == "ready")]
        if ev[0]["ok"]:
            for (op, a, c), line in zip(qs, out[1:] + [""] * len(qs)):
                w = line.split()
                a, c = num(a), num(c)
                if len(w) != (3 if op in "SP" else 6):
                    ev.append(dict(op="none"))
                    break
                v = [num(float(x)) for x in w]
                ok, ok2 = w[0] == "1", len(w) > 3 and w[3] == "1"
                if op == "S":
                    ev.append(dict(op="see", lat=a, lon=c, ok=ok, x=v[1], z=v[2]))
                elif op == "P":
                    ev.append(dict(op="point", x=a, z=c, ok=ok, lat=v[1], lon=v[2]))
                elif op == "T":
                    ev.append(dict(op="there", lat=a, lon=c, ok=ok, ok2=ok2, lat2=v[4], lon2=v[5]))
                else:
                    ev.append(dict(op="back", x=a, z=c, ok=ok, ok2=ok2, x2=v[4], z2=v[5]))
            if mask:
                bits = out[-1] if len(out) == len(qs) + 2 else ""
                for k in range(im["m"]):
                    ev.append(dict(op="mask", k=k, bits=[x == "1" for x in bits[k * im["n"]:(k + 1) * im["n"]]]))
        return dict(cfg=dict(body=proj.spec_body(b), m=im), ev=ev, _input=inp,
                    _kind="%s-%s" % (im["centre"], im["scale"]))
    return rec


def corrupt(s, rng):
    for e in s["ev"]:
        if e["op"] in ("see", "back") and e["ok"] and e.get("ok2", True):
            k = "x" if e["op"] == "see" else "x2"
            if e[k] == "NaN":
                continue
            e[k] = repr(float(e[k]) + .3)
            return s
    return None


def plan(rng, tier):
    n = 400 if tier == "quick" else 8000
    return dict(harnesses=("viewgeom",),
                batches=[Batch("ViewTrace", [("obs-%d" % i, recorder(rng, i)) for i in range(n)], corrupt=corrupt)],
                rule="random observations; 22 conversions each, single and round trip, and the body mask")
