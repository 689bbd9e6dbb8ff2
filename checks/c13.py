"""C13: emission, incidence and phase planes."""
from vlib.check import Batch
from . import proj, maps


def scenario(rng, n):
    b = proj.pick_body(rng)
    t, o, s, l_ = maps.projection(rng, b)
    planes = [maps.virtual(rng, b, k) for k in rng.choice([["mu"], ["mu0"], ["phase"], ["mu", "mu0", "phase"],
                                                           ["phase", "mu", "mu0", "mu"]])]
    return maps.record(b, t, o, s, l_, planes, rng.choice(["DOUBLE", "DOUBLE", "DOUBLE", "FLOAT", "LONG"]),
                       kind="cosines")


def overhead(rng, n):
    """The observer and the sun directly above (or below) the centre of a pixel."""
    b = proj.pick_body(rng)
    if rng.random() < .6:
        b["pol"] = b["eq"]
        b["t"] = (b["t"][0], b["t"][0])
    la, lo = rng.choice([0.0, 45.0, -30.0, maps.sig(rng.uniform(-80, 80))]), maps.sig(rng.uniform(10, 350), 4)
    w = rng.choice([1.0, 4.0, 0.5])
    o = "LO_LAT: %r\nHI_LAT: %r\nLO_LON: %r\nHI_LON: %r\n" % (la - w, la + w, lo - w, lo + w)
    r = maps.sig(b["eq"] * rng.choice([1.1, 1.5, 2, 10, 1e3, 10 ** rng.uniform(.1, 6)]))
    obs = "SUB_OBSERV_LAT: %r\nSUB_OBSERV_LON: %r\nRANGE: %r\n" % (la, lo, r)
    far = rng.random() < .4
    sla, slo = (-la, maps.sig((lo + 180) % 360, 12)) if far else (la, lo)
    sun = "SUB_SOLAR_LAT: %r\nSUB_SOLAR_LON: %r\n" % (sla, slo)
    P = lambda k: dict(maps.DEF, kind=k, obsLat=maps.num(la), obsLon=maps.num(lo), range=maps.num(r),
                       sunLat=maps.num(sla), sunLon=maps.num(slo))
    planes = [("MU:\n" + obs, P("mu")), ("MU0:\n" + sun, P("mu0")), ("PHASE:\n" + obs + sun, P("phase"))]
    return maps.record(b, "SIMPLE_C", o, rng.choice([1, 3, 5, 7]), rng.choice([1, 3, 5, 7]), planes,
                       rng.choice(["DOUBLE", "DOUBLE", "FLOAT", "SHORT"]), kind="overhead")


def plan(rng, tier):
    n = 150 if tier == "quick" else 3000
    return dict(batches=[Batch("MapTrace", [("cos-%d" % i, scenario(rng, i)) for i in range(n)] +
                               [("overhead-%d" % i, overhead(rng, i)) for i in range(n)],
                               corrupt=maps.corrupt)], rule="random bodies, projections, observers and suns")
