-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* The latitude/longitude grid of a map (C18): which parallels and         *)
(* meridians were asked for, and where a point of the body lies in a map.  *)
(***************************************************************************)
EXTENDS Projections

(* --- lines asked for --- *)

(* The j-th parallel, planetocentric degrees (in an evenly spaced           *)
(* planetographic map planetographic ones): counted from the south pole.    *)
Parallel(iv, j) == RAdd(-90, RMul(j, iv))
ParallelAsked(iv, j) == j >= 0 /\ RLe(Parallel(iv, j), "90.0000001")

(* Meridians are counted up or down from the prime meridian, which need not *)
(* matter when the interval divides the circle.                             *)
Meridian(iv, fam, j) == IF fam = "up" THEN RMul(j, iv) ELSE RSub(360, RMul(j, iv))
MeridianAsked(iv, fam, j) ==
    IF fam = "up" THEN j >= 1 /\ RLe(RMul(j, iv), "360.0000001")
    ELSE j >= 0 /\ RLe("-0.0000001", RSub(360, RMul(j, iv)))

(* --- offset, in pixels, of a point of the body from the centre of a pixel --- *)
Signed(d) == LET w == RWrap(d, 360) IN IF RLt(180, w) THEN RSub(w, 360) ELSE w

SimpleOffset(b, p, k, i, lat, lon) ==
    LET L(x) == IF p.graphic THEN Graphic(b, x) ELSE x
    IN << RDiv(Signed(RSub(lon, SimpleLon(b, p, i))),
               RDiv(RSub(SimpleLonHi(p), SimpleLonLo(p)), p.samples)),
          RDiv(RSub(L(lat), L(SimpleLat(b, p, k))),
               RDiv(RSub(L(p.hiLat), L(p.loLat)), p.lines)) >>

MercatorOffset(b, p, k, i, lat, lon) ==
    << RDiv(Signed(RSub(lon, MercatorLon(b, p, i))), RDiv(360, p.samples)),
       IF RGe(RAbs(lat), "89.9999999") THEN "1000000.0"
       ELSE RDiv(RSub(Isometric(b, GraphicRad(b, Rad(lat))), MercatorY(p, k)), RDiv(R2Pi, p.samples)) >>

PolarOffset(b, p, k, i, lat, lon) ==
    IF RLe(IF p.north THEN lat ELSE RNeg(lat), "-89.9999999") THEN << "1000000.0", "1000000.0" >>
    ELSE
    LET m == IF p.samples < p.lines THEN p.samples ELSE p.lines
        r == RDiv(PolarRhoClamped(b, p, GraphicRad(b, Rad(lat))), RDiv(RMul(2, PolarRhoMax(b, p)), m))
        x == RMul(r, RSin(Rad(lon)))
    IN << RSub(IF b.pro = p.north THEN x ELSE RNeg(x), PolarDX(p, i)),
          RSub(RMul(r, RCos(Rad(lon))), PolarDY(p, k)) >>

OrthoOffset(b, p, k, i, lat, lon) ==
    LET s == OrthoSky(b, p, SurfacePoint(b, lat, lon))
        w == OrthoPixel(b, p, k, i)
        q == OrthoKmpp(b, p)
    IN << RDiv(RSub(s[1], w[1]), q), RDiv(RSub(s[2], w[2]), q) >>

Offset(proj, b, p, k, i, lat, lon) ==
    CASE proj = "simple" -> SimpleOffset(b, p, k, i, lat, lon)
      [] proj = "mercator" -> MercatorOffset(b, p, k, i, lat, lon)
      [] proj = "polar" -> PolarOffset(b, p, k, i, lat, lon)
      [] proj = "ortho" -> OrthoOffset(b, p, k, i, lat, lon)

Within(off, d) == RLe(RAbs(off[1]), d) /\ RLe(RAbs(off[2]), d)

(* Elevation of the observer above the horizon of a point (sine). *)
Facing(proj, b, p, lat, lon) ==
    IF proj # "ortho" THEN "1.0"
    ELSE Dot(NormalAt(b, SurfacePoint(b, lat, lon)), OrthoAxes(b, p).toward)

(* The parallels of an evenly spaced planetographic map are planetographic. *)
KindOfLat(proj, b, p, lat) ==
    IF proj = "simple" /\ p.graphic THEN Graphic(b, lat) ELSE lat
=============================================================================
