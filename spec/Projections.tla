---------------------------- MODULE Projections ----------------------------
(***************************************************************************)
(* What each map projection promises about the planetocentric latitude and *)
(* the longitude (degrees) at the centre of pixel (line k, sample i), both *)
(* counted from zero.  Every projection is given as a relation             *)
(* (projection)OK(b, p, k, i, lat, lon, tol) where p holds the parameters  *)
(* of the map, including its size, p.samples and p.lines.                  *)
(***************************************************************************)
EXTENDS Body

Mid(i) == RAdd(i, "0.5")

LatSane(lat) == RIsFinite(lat) /\ RLe(RAbs(lat), "90.0000001")
LonSane(lon) == RIsFinite(lon) /\ RLe("-0.0000001", lon) /\ RLe(lon, "360.0000001")

-----------------------------------------------------------------------------
(* Simple cylindrical: p.loLat, p.hiLat, p.loLon, p.hiLon (planetocentric  *)
(* degrees, longitudes in the body's own sense), p.graphic: which kind of  *)
(* latitude is spaced evenly.                                              *)

SimpleLat(b, p, k) ==
    LET L(x) == IF p.graphic THEN Graphic(b, x) ELSE x
        lo == L(p.loLat)
        hi == L(p.hiLat)
        y == RAdd(lo, RMul(RDiv(Mid(k), p.lines), RSub(hi, lo)))
    IN IF p.graphic THEN Centric(b, y) ELSE y

(* 360 and 0 name the same meridian. *)
SimpleLonLo(p) ==
    LET lo == RWrap(p.loLon, 360)  hi == RWrap(p.hiLon, 360)
    IN IF RLt(hi, lo) THEN RSub(lo, 360) ELSE lo
SimpleLonHi(p) ==
    LET lo == RWrap(p.loLon, 360)  hi == RWrap(p.hiLon, 360)
    IN IF REq(hi, lo) THEN RAdd(hi, 360) ELSE hi

SimpleLon(b, p, i) ==
    LET lo == SimpleLonLo(p)
        hi == SimpleLonHi(p)
        s == RMul(RDiv(Mid(i), p.samples), RSub(hi, lo))
    IN IF b.pro THEN RSub(hi, s) ELSE RAdd(lo, s)

SimpleOK(b, p, k, i, lat, lon, tol) ==
    /\ LatSane(lat) /\ LonSane(lon)
    /\ Near(lat, SimpleLat(b, p, k), tol)
    /\ NearMod(lon, SimpleLon(b, p, i), 360, tol)

-----------------------------------------------------------------------------
(* Mercator.  Isometric latitude of a planetographic latitude (radians).   *)
Isometric(b, latg) ==
    LET e == Ecc(b)
        t == RMul(e, RSin(latg))
    IN RAdd(RLn(RTan(RAdd(RDiv(RPi, 4), RDiv(latg, 2)))),
            RMul(RDiv(e, 2), RLn(RDiv(RSub(1, t), RAdd(1, t)))))

HalfPi == RDiv(RPi, 2)

(* q lies between the isometric latitudes of latg - d and latg + d; beyond *)
(* the poles the isometric latitude is infinite.                           *)
IsometricBracket(b, latg, d, q) ==
    /\ RLe(RSub(latg, d), RNeg(HalfPi)) \/ RLe(Isometric(b, RSub(latg, d)), q)
    /\ RGe(RAdd(latg, d), HalfPi) \/ RLe(q, Isometric(b, RAdd(latg, d)))

MercatorLon(b, p, i) ==
    LET s == RMul(RDiv(Mid(i), p.samples), 360)
    IN IF b.pro THEN RSub(360, s) ELSE s

(* Isometric latitude of a line: pixels are square. *)
MercatorY(p, k) ==
    RMul(RDiv(R2Pi, p.samples), RSub(Mid(k), RDiv(p.lines, 2)))

MercatorOK(b, p, k, i, lat, lon, tol) ==
    /\ LatSane(lat) /\ LonSane(lon)
    /\ IsometricBracket(b, GraphicRad(b, Rad(lat)), Rad(tol), MercatorY(p, k))
    /\ NearMod(lon, MercatorLon(b, p, i), 360, tol)

-----------------------------------------------------------------------------
(* Polar stereographic: p.maxLat (planetocentric degrees of the latitude   *)
(* on the edge of the smaller dimension), p.north.                         *)

(* Stereographic radius of the planetographic latitude (radians), up to a  *)
(* constant factor; zero at the pole on which the map is centred.          *)
PolarRho(b, p, latg) ==
    LET f == IF p.north THEN latg ELSE RNeg(latg)
        e == Ecc(b)
        t == RMul(e, RSin(f))
    IN RMul(RTan(RSub(RDiv(RPi, 4), RDiv(f, 2))),
            RPow(RDiv(RAdd(1, t), RSub(1, t)), RDiv(e, 2)))

PolarRhoClamped(b, p, latg) ==
    IF RGe(IF p.north THEN latg ELSE RNeg(latg), HalfPi) THEN "0.0"
    ELSE PolarRho(b, p, latg)

PolarDX(p, i) == RSub(Mid(i), RDiv(p.samples, 2))
PolarDY(p, k) == RSub(Mid(k), RDiv(p.lines, 2))

PolarRhoMax(b, p) == PolarRho(b, p, GraphicRad(b, Rad(p.maxLat)))

PolarPixelRho(b, p, k, i) ==
    LET m == IF p.samples < p.lines THEN p.samples ELSE p.lines
    IN RMul(RDiv(RMul(2, PolarRhoMax(b, p)), m), RHypot(PolarDX(p, i), PolarDY(p, k)))

(* Measured from the direction of increasing line; the longitude increases *)
(* counter-clockwise on the sky around the north pole of a prograde body.  *)
PolarLon(b, p, k, i) ==
    LET x == PolarDX(p, i)
    IN Deg(RAtan2(IF b.pro = p.north THEN x ELSE RNeg(x), PolarDY(p, k)))

PolarOK(b, p, k, i, lat, lon, tol) ==
    /\ LatSane(lat) /\ LonSane(lon)
    /\ LET rho == PolarPixelRho(b, p, k, i)
           g == GraphicRad(b, Rad(lat))
           d == Rad(tol)
           s == IF p.north THEN g ELSE RNeg(g)
           toPole == IF p.north THEN RAdd(g, d) ELSE RSub(g, d)
           toEdge == IF p.north THEN RSub(g, d) ELSE RAdd(g, d)
       IN /\ RLe(PolarRhoClamped(b, p, toPole), rho)
          /\ \/ RLe(RSub(s, d), RNeg(HalfPi))
             \/ RLe(rho, PolarRhoClamped(b, p, toEdge))
    (* at the very centre every longitude is right *)
    /\ \/ REq(PolarDX(p, i), 0) /\ REq(PolarDY(p, k), 0)
       \/ NearMod(lon, PolarLon(b, p, k, i), 360, tol)

-----------------------------------------------------------------------------
(* Orthographic.  p.obsLat, p.obsLon: sub-observer point; p.pa position    *)
(* angle of the pole, counter-clockwise from the direction of increasing   *)
(* line; p.kmpp kilometres per pixel ("" : body spans nine tenths of the   *)
(* smaller dimension); p.centre "none", "pixel" (p.cs, p.cl) or "latlon"   *)
(* (p.clat, p.clon).                                                       *)

OrthoKmpp(b, p) ==
    IF p.kmpp # "" THEN p.kmpp
    ELSE RDiv(RMul(2, b.eq),
              RMul("0.9", IF p.samples < p.lines THEN p.samples ELSE p.lines))

(* Seen from a sub-observer point at a pole the map is turned so that      *)
(* longitude zero lies in a fixed direction whatever was asked for.        *)
OrthoPolar(p) == REq(RAbs(p.obsLat), 90)

(* Sky axes in the body frame: right (towards increasing sample when       *)
(* PA = 0), up (towards increasing line), towards the observer.            *)
OrthoAxes(b, p) ==
    LET o == Direction(b, p.obsLat, IF OrthoPolar(p) THEN 0 ELSE p.obsLon)
        \* east on the sky of the body at the sub-observer meridian
        lo == Rad(East(b, IF OrthoPolar(p) THEN 0 ELSE p.obsLon))
        right == << RNeg(RSin(lo)), RCos(lo), "0.0" >>
        up == Cross(o, right)
    IN [toward |-> o, right |-> right, up |-> up]

OrthoPA(b, p) ==
    IF ~OrthoPolar(p) THEN p.pa
    ELSE IF RLt(0, p.obsLat) THEN 180 ELSE 0

(* Position of a point of space on the sky, km, in directions of           *)
(* increasing sample and line.                                             *)
OrthoSky(b, p, v) ==
    LET A == OrthoAxes(b, p)
        x == Dot(v, A.right)
        z == Dot(v, A.up)
        pa == Rad(OrthoPA(b, p))
    IN << RSub(RMul(x, RCos(pa)), RMul(z, RSin(pa))),
          RAdd(RMul(x, RSin(pa)), RMul(z, RCos(pa))) >>

(* Position of the centre of the body in the map, pixels. *)
OrthoCentre(b, p) ==
    IF p.centre = "pixel" THEN << p.cs, p.cl >>
    ELSE IF p.centre = "latlon" THEN
        LET s == OrthoSky(b, p, SurfacePoint(b, p.clat, p.clon))
            q == OrthoKmpp(b, p)
        IN << RSub(RDiv(p.samples, 2), RDiv(s[1], q)),
              RSub(RDiv(p.lines, 2), RDiv(s[2], q)) >>
    ELSE << RDiv(p.samples, 2), RDiv(p.lines, 2) >>

(* Sky position of the centre of a pixel, km. *)
OrthoPixel(b, p, k, i) ==
    LET c == OrthoCentre(b, p)
        q == OrthoKmpp(b, p)
    IN << RMul(RSub(Mid(i), c[1]), q), RMul(RSub(Mid(k), c[2]), q) >>

(* How far out of the body's outline a sky position is: 1 on the limb. *)
OrthoOutline(b, p, s) ==
    LET pa == Rad(OrthoPA(b, p))
        x == RAdd(RMul(s[1], RCos(pa)), RMul(s[2], RSin(pa)))
        z == RSub(RMul(s[2], RCos(pa)), RMul(s[1], RSin(pa)))
        la == Rad(p.obsLat)
        c2 == RAdd(RSq(RMul(b.pol, RCos(la))), RSq(RMul(b.eq, RSin(la))))
    IN RAdd(RDiv(RSq(x), RSq(b.eq)), RDiv(RSq(z), c2))

OrthoBlankOK(b, p, k, i) ==
    RGe(OrthoOutline(b, p, OrthoPixel(b, p, k, i)), "0.999999999")

OrthoOK(b, p, k, i, lat, lon, tol) ==
    /\ LatSane(lat) /\ LonSane(lon)
    /\ LET want == OrthoPixel(b, p, k, i)
           v == SurfacePoint(b, lat, lon)
           got == OrthoSky(b, p, v)
       IN /\ RLe(OrthoOutline(b, p, want), "1.000000001")
          /\ RLe(RHypot(RSub(want[1], got[1]), RSub(want[2], got[2])),
                 RMul(tol, b.eq))
          \* the near intersection: its normal faces the observer
          /\ RLe("-0.0001", Dot(NormalAt(b, v), OrthoAxes(b, p).toward))

(* The point asked for at the centre can be seen. *)
OrthoCentreVisible(b, p) ==
    RLe(0, Dot(NormalAt(b, SurfacePoint(b, p.clat, p.clon)), OrthoAxes(b, p).toward))
=============================================================================
