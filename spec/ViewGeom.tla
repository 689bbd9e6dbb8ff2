------------------------------ MODULE ViewGeom ------------------------------
(***************************************************************************)
(* How a camera sees the body.  An image is a record m with                *)
(*   n, m             samples and lines                                    *)
(*   obsLat, obsLon, range, pa     observer (km from the centre), position *)
(*                    angle of the spin axis, counter-clockwise from up    *)
(*   sunLat, sunLon                                                        *)
(*   centre           "pixel": the body's centre is seen at (cs, cl)       *)
(*                    "latlon": the optical axis points at (clat, clon)    *)
(*   oas, oal         position of the optical axis ("" : image centre)     *)
(*   scale            "km" / "arcsec" (per pixel, at the body's centre) or *)
(*                    "focal" (focal length times pixels per length)       *)
(*   sv               the value belonging to scale, pixels for "focal"     *)
(*   gll              does the Galileo lens distort the image?             *)
(*   emi, term        emission angle limit ("" : none), terminator         *)
(* Sample coordinates grow to the right, lines downward; pixel i covers    *)
(* [i, i + 1).  The camera frame is right, forward, up.                    *)
(***************************************************************************)
EXTENDS Body

OAS(m) == IF m.oas = "" THEN RDiv(m.n, 2) ELSE m.oas
OAL(m) == IF m.oal = "" THEN RDiv(m.m, 2) ELSE m.oal

KmPerPixel(m) ==
    IF m.scale = "arcsec" THEN RMul(RMul(RDiv(RPi, 648000), m.sv), m.range)
    ELSE m.sv

(* Three orthonormal vectors spanned by a direction and the spin axis. *)
Triad(d, a) ==
    LET e2 == Unit(VSub(a, VScale(Dot(a, d), d)))
    IN << d, e2, Cross(d, e2) >>

SpinAxis == << "0.0", "0.0", "1.0" >>

Sees(b, m) ==
    LET o == Direction(b, m.obsLat, m.obsLon)
        O == VScale(m.range, o)
        pa == Rad(m.pa)
        sp == RSin(pa)
        cp == RCos(pa)
    IN IF m.centre = "pixel" THEN
        LET ds == RSub(m.cs, OAS(m))
            dl == RSub(OAL(m), m.cl)
            f == IF m.scale = "focal" THEN m.sv
                 ELSE RSqrt(RSub(RSq(RDiv(m.range, KmPerPixel(m))),
                                 RAdd(RSq(ds), RSq(dl))))
            d == Unit(<< ds, f, dl >>)
            \* the axis in the camera frame: seen at position angle pa and
            \* making the right angle with the line of sight
            g == RSub(RMul(d[3], cp), RMul(d[1], sp))
            A == RHypot(g, d[2])
            u == RAsin(RDiv(RNeg(RSin(Rad(m.obsLat))), A))
            t1 == RSub(u, RAtan2(g, d[2]))
            \* the other solution only if this one points the axis away
            t == IF RLt(RCos(t1), 0) THEN RSub(RSub(RPi, u), RAtan2(g, d[2])) ELSE t1
            a == << RNeg(RMul(RCos(t), sp)), RSin(t), RMul(RCos(t), cp) >>
        IN [O |-> O, f |-> f, sun |-> Direction(b, m.sunLat, m.sunLon),
            eb |-> Triad(VScale(-1, o), SpinAxis), ec |-> Triad(d, a)]
       ELSE
        LET axis == Unit(VSub(SurfacePoint(b, m.clat, m.clon), O))
            f == IF m.scale = "focal" THEN m.sv
                 ELSE RDiv(RNeg(Dot(axis, O)), KmPerPixel(m))
        IN [O |-> O, f |-> f, sun |-> Direction(b, m.sunLat, m.sunLon),
            eb |-> Triad(axis, SpinAxis),
            ec |-> Triad(<< "0.0", "1.0", "0.0" >>, << RNeg(sp), "0.0", cp >>)]

(* x > y?  {TRUE}, {FALSE}, or both where rounding decides. *)
AboveBy(x, y, tol) == IF RLt(RAdd(y, tol), x) THEN {TRUE}
                      ELSE IF RLt(x, RSub(y, tol)) THEN {FALSE}
                      ELSE {TRUE, FALSE}
Above(x, y) == AboveBy(x, y, "0.000000001")
And(S, T) == { x /\ y : x \in S, y \in T }

(* Is there an orientation of the camera that shows the body's centre and   *)
(* axis where the user says they are?  {TRUE, FALSE}: rounding decides.     *)
Orientable(m) ==
    IF m.centre # "pixel" THEN {TRUE}
    ELSE LET ds == RSub(m.cs, OAS(m))
             dl == RSub(OAL(m), m.cl)
             f == IF m.scale = "focal" THEN m.sv
                  ELSE RSqrt(RSub(RSq(RDiv(m.range, KmPerPixel(m))),
                                  RAdd(RSq(ds), RSq(dl))))
             d == Unit(<< ds, f, dl >>)
             g == RSub(RMul(d[3], RCos(Rad(m.pa))), RMul(d[1], RSin(Rad(m.pa))))
         IN IF ~RIsFinite(f) THEN {FALSE}
            ELSE Above(RHypot(g, d[2]), RAbs(RSin(Rad(m.obsLat))))

(* Vectors from the body frame to the camera frame and back. *)
ToCamera(g, v) ==
    VAdd(VAdd(VScale(Dot(v, g.eb[1]), g.ec[1]), VScale(Dot(v, g.eb[2]), g.ec[2])),
         VScale(Dot(v, g.eb[3]), g.ec[3]))
ToBody(g, v) ==
    VAdd(VAdd(VScale(Dot(v, g.ec[1]), g.eb[1]), VScale(Dot(v, g.ec[2]), g.eb[2])),
         VScale(Dot(v, g.ec[3]), g.eb[3]))

(* Lens of the Galileo SSI camera: distances from the middle of its        *)
(* 800 x 800 detector grow by a factor 1 + D r^2.  Images of at most 400   *)
(* samples were summed 2 x 2.                                              *)
LensD == "0.00000000658"
LensS(m) == IF m.n <= 400 THEN 2 ELSE 1
FullFrame(m, x) == RSub(RMul(LensS(m), x), 400)
FromFullFrame(m, x) == RDiv(RAdd(x, 400), LensS(m))

Distorted(m, x, z) ==
    IF ~m.gll THEN << x, z >>
    ELSE LET u == FullFrame(m, x)
             w == FullFrame(m, z)
             k == RAdd(1, RMul(LensD, RAdd(RSq(u), RSq(w))))
         IN << FromFullFrame(m, RMul(k, u)), FromFullFrame(m, RMul(k, w)) >>

(* Undistorted radius q with q (1 + D q^2) = r, by iteration. *)
RECURSIVE UndistortedRadius(_, _, _)
UndistortedRadius(r, q, n) ==
    IF n = 0 THEN q ELSE UndistortedRadius(r, RDiv(r, RAdd(1, RMul(LensD, RSq(q)))), n - 1)

Undistorted(m, x, z) ==
    IF ~m.gll THEN << x, z >>
    ELSE LET u == FullFrame(m, x)
             w == FullFrame(m, z)
             r == RHypot(u, w)
             q == UndistortedRadius(r, r, 12)
         IN IF REq(r, 0) THEN << x, z >>
            ELSE << FromFullFrame(m, RMul(RDiv(q, r), u)), FromFullFrame(m, RMul(RDiv(q, r), w)) >>

(* Image position of a point of space; not a number behind the camera. *)
Position(m, g, p) ==
    LET v == ToCamera(g, VSub(p, g.O))
    IN IF RGt(v[2], 0)
       THEN Distorted(m, RAdd(OAS(m), RMul(g.f, RDiv(v[1], v[2]))),
                         RSub(OAL(m), RMul(g.f, RDiv(v[3], v[2]))))
       ELSE << "NaN", "NaN" >>

(* Cosines at a point of the surface. *)
Mu(b, O, p) == Dot(NormalAt(b, p), Unit(VSub(O, p)))
Mu0(b, sun, p) == Dot(NormalAt(b, p), sun)
CosPhase(O, sun, p) == Dot(Unit(VSub(O, p)), sun)

(* Can the point be seen and is it wanted?  {TRUE}, {FALSE}, or both where *)
(* rounding decides.                                                       *)
Visible(b, m, g, p) ==
    And(Above(Mu(b, g.O, p), IF m.emi = "" THEN 0 ELSE RCos(Rad(m.emi))),
        IF m.term THEN Above(Mu0(b, g.sun, p), 0) ELSE {TRUE})

(* Does the line of sight through an image position meet the body? *)
LineOfSight(m, g, x, z) ==
    LET u == Undistorted(m, x, z)
    IN Unit(ToBody(g, << RSub(u[1], OAS(m)), g.f, RSub(OAL(m), u[2]) >>))

MeetsTol(b, m, g, x, z, tol) ==
    LET w == LineOfSight(m, g, x, z)
        S(v) == << RDiv(v[1], b.eq), RDiv(v[2], b.eq), RDiv(v[3], b.pol) >>
        o == S(g.O)
        d == Unit(S(w))
        h == RNeg(Dot(o, d))
        \* squared distance of the line from the centre of the unit sphere
        q == VAdd(o, VScale(h, d))
    IN And(AboveBy(1, Dot(q, q), tol), Above(h, 0))

(* The rounding error of squared distances grows with the range. *)
Meets(b, m, g, x, z) ==
    MeetsTol(b, m, g, x, z, RAdd("0.000000001", RMul("0.000000000000004", RSq(RDiv(m.range, b.eq)))))

(* First point of the body on a line of sight that meets it. *)
FirstPoint(b, m, g, x, z) ==
    LET w == LineOfSight(m, g, x, z)
        S(v) == << RDiv(v[1], b.eq), RDiv(v[2], b.eq), RDiv(v[3], b.pol) >>
        o == S(g.O)
        d == S(w)
        a == Dot(d, d)
        h == Dot(o, d)
        c == RSub(Dot(o, o), 1)
        disc == RSub(RSq(h), RMul(a, c))
        t == RDiv(RSub(RNeg(h), RSqrt(disc)), a)
    IN VAdd(g.O, VScale(t, w))
=============================================================================
