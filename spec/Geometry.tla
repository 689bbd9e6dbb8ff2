------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* The mathematics under the maps: vectors and matrices of any size,       *)
(* rotations of the coordinate system, quadratic equations, mirrored       *)
(* images, and the oblate spheroid with the light that falls on it.        *)
(* Angles in radians.  A matrix is [m, n, e]: m rows, n columns, elements  *)
(* row by row.                                                             *)
(***************************************************************************)
EXTENDS Body

RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN 0 ELSE RAdd(Head(s), RSum(Tail(s)))
RECURSIVE RTop(_)
RTop(s) == IF s = <<>> THEN 0 ELSE RMax(RAbs(Head(s)), RTop(Tail(s)))

Sum(a, b) == [i \in DOMAIN a |-> RAdd(a[i], b[i])]
Difference(a, b) == [i \in DOMAIN a |-> RSub(a[i], b[i])]
Multiple(k, a) == [i \in DOMAIN a |-> RMul(k, a[i])]
Terms(a, b) == [i \in DOMAIN a |-> RMul(a[i], b[i])]
Inner(a, b) == RSum(Terms(a, b))
InnerTol(a, b) == RMul("1e-13", RSum([i \in DOMAIN a |-> RAbs(RMul(a[i], b[i]))]))
(* Length of a vector, without the squares of its elements overflowing. *)
Magnitude(a) ==
    LET t == RTop(a)
    IN IF REq(t, 0) THEN 0
       ELSE RMul(t, RSqrt(RSum([i \in DOMAIN a |-> RSq(RDiv(a[i], t))])))

Row(A, i) == [j \in 1..A.n |-> A.e[(i - 1) * A.n + j]]
Column(A, j) == [i \in 1..A.m |-> A.e[(i - 1) * A.n + j]]
RowOf(n, k) == ((k - 1) \div n) + 1
ColumnOf(n, k) == ((k - 1) % n) + 1
Transposed(A) == [m |-> A.n, n |-> A.m,
                  e |-> [k \in 1..(A.m * A.n) |-> A.e[(ColumnOf(A.m, k) - 1) * A.n + RowOf(A.m, k)]]]
Product(A, B) == [m |-> A.m, n |-> B.n,
                  e |-> [k \in 1..(A.m * B.n) |-> Inner(Row(A, RowOf(B.n, k)), Column(B, ColumnOf(B.n, k)))]]
ProductTol(A, B) == [k \in 1..(A.m * B.n) |-> InnerTol(Row(A, RowOf(B.n, k)), Column(B, ColumnOf(B.n, k)))]
Applied(A, x) == [i \in 1..A.m |-> Inner(Row(A, i), x)]
AppliedTol(A, x) == [i \in 1..A.m |-> InnerTol(Row(A, i), x)]

(* The coordinate system turns counterclockwise about the axis by angle t: *)
(* the axis the turn starts from, seen from the new system, has turned     *)
(* clockwise.                                                              *)
Turn(axis, t) ==
    LET c == RCos(t)  s == RSin(t)  r == RNeg(s)
    IN [m |-> 3, n |-> 3,
        e |-> CASE axis = "x" -> << 1, 0, 0,  0, c, s,  0, r, c >>
                [] axis = "y" -> << c, 0, r,  0, 1, 0,  s, 0, c >>
                [] OTHER      -> << c, s, 0,  r, c, 0,  0, 0, 1 >>]
Det3(A) == LET e == A.e IN Dot(<<e[1], e[2], e[3]>>, Cross(<<e[4], e[5], e[6]>>, <<e[7], e[8], e[9]>>))

(* Mirrored images: w columns, pixels line by line. *)
MirrorColumns(w, p) == [k \in DOMAIN p |-> p[(RowOf(w, k) - 1) * w + (w + 1 - ColumnOf(w, k))]]
MirrorLines(w, h, p) == [k \in DOMAIN p |-> p[(h - RowOf(w, k)) * w + ColumnOf(w, k)]]

-----------------------------------------------------------------------------
(* a x^2 + b x + c = 0, a not zero *)
Disc(a, b, c) == RSub(RSq(b), RMul(4, RMul(a, c)))
DiscScale(a, b, c) == RAdd(RSq(b), RMul(4, RAbs(RMul(a, c))))
Whole(x) == REq(RTruncR(x), x) /\ RLt(RAbs(x), 1000000)
Exactly(a, b, c) == Whole(a) /\ Whole(b) /\ Whole(c)
RelNear(x, y, tol) == ~RIsNaN(x) /\ ~RIsNaN(y) /\ RLe(RAbs(RSub(x, y)), RMul(tol, RMax(RAbs(x), RAbs(y))))
SameRoots(p, q, x, y, tol) == \/ RelNear(p, x, tol) /\ RelNear(q, y, tol)
                              \/ RelNear(p, y, tol) /\ RelNear(q, x, tol)
Roots(a, b, c) ==
    LET r == RSqrt(RMax(0, Disc(a, b, c)))
        q == RDiv(IF RLt(b, 0) THEN RSub(r, b) ELSE RNeg(RAdd(b, r)), 2)
    IN IF REq(q, 0) THEN <<0, 0>> ELSE <<RDiv(q, a), RDiv(c, q)>>
QuadraticOK(a, b, c, ok, x, y) ==
    LET d == Disc(a, b, c)  s == DiscScale(a, b, c)  r == Roots(a, b, c)
        clear == RLt(RMul("1e-12", s), RAbs(d))
    IN IF Exactly(a, b, c) \/ clear
       THEN /\ ok = RLe(0, d)
            /\ ok => SameRoots(x, y, r[1], r[2],
                               IF REq(d, 0) THEN "1e-12" ELSE RAdd("1e-12", RMul("1e-14", RDiv(s, d))))
       ELSE ok => SameRoots(x, y, r[1], r[2], "1e-5")

-----------------------------------------------------------------------------
(* The spheroid. *)
PossibleBody(eq, pol) == ~RIsNaN(eq) /\ ~RIsNaN(pol) /\ RLt(0, pol) /\ RLe(pol, eq)

(* Radii of curvature at a planetocentric latitude: of the meridian, and   *)
(* across it.  Both from the distance N from the surface to the axis along *)
(* the normal.                                                             *)
CurvatureAcross(b, lat) ==
    LET g == GraphicRad(b, lat)
    IN RDiv(RSq(b.eq), RHypot(RMul(b.eq, RCos(g)), RMul(b.pol, RSin(g))))
CurvatureMeridian(b, lat) ==
    LET k == CurvatureAcross(b, lat)
    IN RDiv(RMul(RMul(k, RMul(k, k)), RSq(b.pol)), RSq(RSq(b.eq)))

(* How much larger than on the body a length at planetographic latitude g  *)
(* is in a Mercator map of which the equator is true to scale, and, for a  *)
(* sphere, in a polar stereographic map true to scale at its north pole.   *)
MercatorStretch(b, g) == LET c == CentricRad(b, g) IN RDiv(b.eq, RMul(SurfaceRadius(b, c), RCos(c)))
PolarStretch(g) == RDiv(2, RAdd(1, RSin(g)))

Towards(lat, lon) == << RMul(RCos(lat), RCos(lon)), RMul(RCos(lat), RSin(lon)), RSin(lat) >>
Surface(b, lat, lon) == VScale(SurfaceRadius(b, lat), Towards(lat, lon))
CosBetween(u, v) == RDiv(Dot(u, v), RMul(Norm(u), Norm(v)))
Emission(b, olat, olon, lat, lon, range) ==
    LET p == Surface(b, lat, lon)
    IN CosBetween(NormalAt(b, p), VSub(VScale(range, Towards(olat, olon)), p))
Incidence(b, slat, slon, lat, lon) == CosBetween(NormalAt(b, Surface(b, lat, lon)), Towards(slat, slon))
PhaseCos(b, olat, olon, slat, slon, lat, lon, range) ==
    CosBetween(Towards(slat, slon), VSub(VScale(range, Towards(olat, olon)), Surface(b, lat, lon)))
Cosine(x) == RLe(-1, x) /\ RLe(x, 1)

(* A line of sight from v along d.  Longitudes are east, zero towards -y.  *)
Stretched(b, v) == << RDiv(v[1], b.eq), RDiv(v[2], b.eq), RDiv(v[3], b.pol) >>
MeetOK(b, v, d, code, lat, lon) ==
    LET V == Stretched(b, v)  D == Stretched(b, d)
        qa == Dot(D, D)  qb == RMul(2, Dot(V, D))  qc == RSub(Dot(V, V), 1)
        disc == Disc(qa, qb, qc)  s == DiscScale(qa, qb, qc)
        inside == RLt(qc, "1e-9")
        r == Roots(qa, qb, qc)
        k == RMin(r[1], r[2])
        p == VAdd(v, VScale(k, d))
        root == RSqrt(RMax(disc, 0))
        tol == RAdd(RMul("1e-10", b.eq), RMul(RMul("1e-14", Norm(v)), RAdd(1, RDiv(RAbs(qb), RMax(root, "1e-300")))))
        seen == << RMul(RCos(lat), RSin(lon)), RNeg(RMul(RCos(lat), RCos(lon))), RSin(lat) >>
        there == RLe(Norm(VSub(p, VScale(SurfaceRadius(b, lat), seen))), tol)
    IN IF REq(qa, 0) THEN code = -1
       ELSE IF inside \/ RLe(RAbs(disc), RMul("1e-12", s)) THEN code \in {0, 1}
       ELSE IF RLt(disc, 0) \/ RLt(0, qb) THEN code = 1
       ELSE code = 0 /\ there
=============================================================================
