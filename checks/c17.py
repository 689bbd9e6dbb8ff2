"""C17: orthographic maps."""
import math
from vlib.check import Batch
from vlib.fits import num
from . import proj


def pa_arg(rng):
    v = float("%.6g" % rng.choice([0, 0, 90, 180, 270, 360, 30, 45, rng.uniform(0, 360)]))
    r = rng.random()
    if r < .4:
        return "%r" % v, v
    if r < .6:
        return "%r CCW" % v, v
    if r < .8:
        return "%r CW" % v, -v
    return "%r" % -v, -v


def scenario(rng, n):
    b = proj.pick_body(rng)
    samples, lines_ = proj.size(rng, 22)
    if n % 40 == 7:
        samples, lines_ = rng.choice([(301, 200), (530, 17), (13, 600), (256, 256)])
    p = dict(obsLat="0.0", obsLon="0.0", pa="0.0", kmpp="", centre="none", cs="0.0", cl="0.0", clat="0.0", clon="0.0")
    kinds = ["none", "obs", "pa", "km", "centre", "obs pa", "obs pa km", "obs pa km centre", "obs pa km centre",
             "obs pa km centre", "obs pa km centre", "obs"]
    kind = kinds[n % len(kinds)].split()
    opts = ""
    polar = False
    if "obs" in kind:
        polar = rng.random() < .12
        if polar:
            v = rng.choice([90, -90])
            t, la = "%d" % v, float(v)
        else:
            t, la = proj.lat_arg(rng, b, rng.choice([0, 1, -1, 30, -45, 60, -80, 88, 89.9, -89.999, rng.uniform(-89, 89), rng.uniform(-89, 89)]))
        tl, lo = proj.lon_arg(rng, b, rng.choice([0, 10, 90, 180, 270, 359, rng.uniform(0, 360)]))
        p.update(obsLat=num(la), obsLon=num(lo))
        o = ["SUB_OBSERV_LAT: %s\n" % t, "SUB_OBSERV_LON: %s\n" % tl]
        if rng.random() < .4:
            o.reverse()
        opts += "".join(o)
    if "pa" in kind:
        t, v = pa_arg(rng)
        p["pa"] = num(v)
        opts += "POSITION_ANGLE: %s\n" % t
    q = 2 * b["eq"] / (.9 * min(samples, lines_))
    if "km" in kind:
        q = float("%.7g" % (q * rng.choice([1, .5, .1, 2, 5, rng.uniform(.1, 3)])))
        p["kmpp"] = num(q)
        opts += "KM_PER_PIXEL: %r\n" % q
    if "centre" in kind:
        if rng.random() < .5:
            cs = float("%.6g" % (samples * rng.uniform(-.2, 1.2)))
            cl = float("%.6g" % (lines_ * rng.uniform(-.2, 1.2)))
            p.update(centre="pixel", cs=num(cs), cl=num(cl))
            o = ["SAMPLE_CENTER: %r\n" % cs, "LINE_CENTER: %r\n" % cl]
        else:
            for _ in range(50):
                t, la = proj.lat_arg(rng, b, rng.uniform(-89, 89))
                tl, lo = proj.lon_arg(rng, b, rng.uniform(0, 360))
                # stay away from the limb, where rounding decides
                mu = facing(b, float(p["obsLat"]), 0.0 if polar else float(p["obsLon"]), la, lo)
                want = -.02 if rng.random() < .15 else .02
                if mu * want > 4e-4:
                    break
            p.update(centre="latlon", clat=num(la), clon=num(lo))
            o = ["LAT_AT_CENTER: %s\n" % t, "LON_AT_CENTER: %s\n" % tl]
        if rng.random() < .4:
            o.reverse()
        opts += "".join(o)
    return proj.record("ortho", "ORTHO", b, p, opts, samples, lines_, n, swap=rng.random() < .3,
                       extra_plane=rng.random() < .2, grid=rng.random() < .2)


def facing(b, la0, lo0, la, lo):
    """Cosine between the normal at a point and the direction of the observer."""
    r = math.radians
    g = math.atan2(math.sin(r(la)) * b["eq"] ** 2, math.cos(r(la)) * b["pol"] ** 2)
    return math.sin(g) * math.sin(r(la0)) + math.cos(g) * math.cos(r(la0)) * math.cos(r(lo - lo0))


def plan(rng, tier):
    n = 240 if tier == "quick" else 3000
    recs = [("ortho-%d" % i, scenario(rng, i)) for i in range(n)]
    return dict(batches=[Batch("ProjTrace", recs, corrupt=proj.corrupt)], rule="random maps")
