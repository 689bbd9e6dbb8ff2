ID = "phase-seen-from-too-far"
PROPERTY = "C13"
NEEDS = "a PHASE plane at finite range"
BREAKS = "the cosine of the phase angle is computed for an observer at infinity once beyond a hundred radii"
EDITS = [("lib/marc/CosPhaseImage.cpp", "                                  this->range_);", "                                  this->range_ < 50 * this->body_->centric_radius(lat) ? this->range_ : this->range_ * 1000);")]
DEMO = '''
import math
def v(lat, lon, r=1.0):
    return (r * math.cos(lat) * math.cos(lon), r * math.cos(lat) * math.sin(lon), r * math.sin(lat))
text = head() + simple(8, 8) + "PLANE:\\nPHASE:\\nSUB_OBSERV_LAT: 0\\nSUB_OBSERV_LON: 0\\nRANGE: 60000\\nSUB_SOLAR_LAT: 0\\nSUB_SOLAR_LON: 90\\nPLANE:\\nLATITUDE: CENTRIC\\nPLANE:\\nLONGITUDE\\n"
with Scratch() as s:
    h = s.map(text)
    check(h is not None, "run failed")
    for c, la, lo in zip(*h[0].planes):
        p = v(math.radians(la), math.radians(lo), 1000)
        o = v(0, 0, 60000)
        d = [a - b for a, b in zip(o, p)]
        n = math.sqrt(sum(x * x for x in d))
        want = d[1] / n
        check(near(c, want, 1e-9), "cosine of phase %r, expected %r" % (c, want))
'''
