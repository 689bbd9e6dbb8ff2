-------------------------------- MODULE Body --------------------------------
(***************************************************************************)
(* The oblate spheroid.  A body is a record [eq, pol, pro]: equatorial and *)
(* polar radius (km) and whether it rotates prograde.  Angles in degrees   *)
(* unless said otherwise; longitudes are west on prograde bodies and east  *)
(* on retrograde ones.                                                     *)
(***************************************************************************)
EXTENDS FReal

(* Planetographic latitude of a planetocentric one and back (radians).     *)
(* Written with atan2 so that the poles map to themselves.                 *)
GraphicRad(b, lat) ==
    RAtan2(RMul(RSin(lat), RSq(b.eq)), RMul(RCos(lat), RSq(b.pol)))
CentricRad(b, lat) ==
    RAtan2(RMul(RSin(lat), RSq(b.pol)), RMul(RCos(lat), RSq(b.eq)))
Graphic(b, d) == Deg(GraphicRad(b, Rad(d)))
Centric(b, d) == Deg(CentricRad(b, Rad(d)))

(* Distance of the surface from the centre at a planetocentric latitude. *)
SurfaceRadius(b, latRad) ==
    RDiv(RMul(b.eq, b.pol),
         RHypot(RMul(b.pol, RCos(latRad)), RMul(b.eq, RSin(latRad))))

Ecc(b) == RSqrt(RSub(1, RSq(RDiv(b.pol, b.eq))))

(* East-positive version of a longitude of the body. *)
East(b, lon) == IF b.pro THEN RNeg(lon) ELSE lon

-----------------------------------------------------------------------------
(* Vectors <<x, y, z>> in the body frame: z along the spin axis (north),    *)
(* x through latitude 0, longitude 0, y completing a right-handed frame     *)
(* (so through east longitude 90).                                         *)
VAdd(u, v) == <<RAdd(u[1], v[1]), RAdd(u[2], v[2]), RAdd(u[3], v[3])>>
VSub(u, v) == <<RSub(u[1], v[1]), RSub(u[2], v[2]), RSub(u[3], v[3])>>
VScale(s, v) == <<RMul(s, v[1]), RMul(s, v[2]), RMul(s, v[3])>>
Dot(u, v) == RAdd(RAdd(RMul(u[1], v[1]), RMul(u[2], v[2])), RMul(u[3], v[3]))
Norm(v) == RSqrt(Dot(v, v))
Unit(v) == VScale(RDiv(1, Norm(v)), v)
Cross(u, v) == << RSub(RMul(u[2], v[3]), RMul(u[3], v[2])),
                  RSub(RMul(u[3], v[1]), RMul(u[1], v[3])),
                  RSub(RMul(u[1], v[2]), RMul(u[2], v[1])) >>

(* Unit vector towards planetocentric latitude/longitude (degrees). *)
Direction(b, lat, lon) ==
    LET la == Rad(lat)  lo == Rad(East(b, lon))
    IN << RMul(RCos(la), RCos(lo)), RMul(RCos(la), RSin(lo)), RSin(la) >>

(* Point of the surface, km. *)
SurfacePoint(b, lat, lon) ==
    VScale(SurfaceRadius(b, Rad(lat)), Direction(b, lat, lon))

(* Outward unit normal of the spheroid at a point p of its surface. *)
NormalAt(b, p) ==
    Unit(<< RDiv(p[1], RSq(b.eq)), RDiv(p[2], RSq(b.eq)), RDiv(p[3], RSq(b.pol)) >>)
=============================================================================
