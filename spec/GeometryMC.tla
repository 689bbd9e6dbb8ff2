----------------------------- MODULE GeometryMC -----------------------------
(***************************************************************************)
(* The laws of Geometry.tla on what can be enumerated: all orientations    *)
(* reached by quarter turns, all ways to mirror a small image, and a       *)
(* spheroid walked in steps of latitude and longitude.                     *)
(***************************************************************************)
EXTENDS Geometry, FiniteSets, TLC

CONSTANTS W, H, Step, Ratios
VARIABLES turned,   \* orientation: a rotation matrix of whole numbers
          image,    \* an image mirrored any number of times
          ratio, lat, lon    \* a place on a spheroid
vars == <<turned, image, ratio, lat, lon>>

Rounded(A) == [m |-> A.m, n |-> A.n, e |-> [k \in 1..9 |-> RRound(A.e[k])]]
Quarter(axis) == Turn(axis, RDiv(RPi, 2))
Original == [k \in 1..(W * H) |-> k]
Unturned == [m |-> 3, n |-> 3, e |-> <<1, 0, 0, 0, 1, 0, 0, 0, 1>>]

Init == turned = Unturned /\ image = Original /\ ratio \in Ratios /\ lat = -90 /\ lon = 0
AtStart == lat = -90 /\ lon = 0
TurnIt == /\ AtStart /\ image = Original
          /\ \E axis \in {"x", "y", "z"} : turned' = Rounded(Product(Quarter(axis), turned))
          /\ UNCHANGED <<image, ratio, lat, lon>>
Mirror == /\ AtStart /\ turned = Unturned
          /\ image' \in {MirrorColumns(W, image), MirrorLines(W, H, image)}
          /\ UNCHANGED <<turned, ratio, lat, lon>>
Walk == /\ turned = Unturned /\ image = Original
        /\ \/ lat + Step <= 90 /\ lat' = lat + Step /\ lon' = lon
           \/ lon + 3 * Step < 360 /\ lon' = lon + 3 * Step /\ lat' = lat
        /\ UNCHANGED <<turned, image, ratio>>
Next == TurnIt \/ Mirror \/ Walk
Spec == Init /\ [][Next]_vars

\* a turn keeps lengths and handedness, and its transpose undoes it
Proper == /\ REq(Det3(turned), 1)
          /\ \A k \in 1..9 : REq(Product(turned, Transposed(turned)).e[k], Unturned.e[k])
\* turning the system counterclockwise about z by a quarter: old x is seen along -y, old y along x
Sense == /\ Rounded(Quarter("z")).e = <<0, 1, 0, -1, 0, 0, 0, 0, 1>>
         /\ Rounded(Quarter("x")).e = <<1, 0, 0, 0, 0, 1, 0, -1, 0>>
         /\ Rounded(Quarter("y")).e = <<0, 0, -1, 0, 1, 0, 1, 0, 0>>
\* mirroring loses nothing, undoes itself, and the two ways commute
Kept == /\ {image[k] : k \in DOMAIN image} = DOMAIN image
        /\ MirrorColumns(W, MirrorColumns(W, image)) = image
        /\ MirrorLines(W, H, MirrorLines(W, H, image)) = image
        /\ MirrorLines(W, H, MirrorColumns(W, image)) = MirrorColumns(W, MirrorLines(W, H, image))

b == [eq |-> 1000, pol |-> ratio * 10, pro |-> TRUE]
LA == Rad(lat)
LO == Rad(lon)
P == Surface(b, LA, LO)
OnSurface == LET s == Stretched(b, P) IN Near(Dot(s, s), 1, "1e-12")
Inverse == /\ Near(CentricRad(b, GraphicRad(b, LA)), LA, "1e-12")
           /\ Near(GraphicRad(b, CentricRad(b, LA)), LA, "1e-12")
\* the planetographic latitude is that of the normal
NormalUp == LET n == NormalAt(b, P) IN Near(RAtan2(n[3], RHypot(n[1], n[2])), GraphicRad(b, LA), "1e-12")
\* the curvature radius of the meridian is the arc per change of the normal's direction
Curved == LET d == "1e-4"  g == GraphicRad(b, LA)
              At(x) == LET c == CentricRad(b, x) IN Surface(b, c, LO)
              u == At(RAdd(g, d))  v == At(RSub(g, d))
          IN lat \notin {-90, 90} =>
                NearRel(RDiv(Norm(VSub(u, v)), RMul(2, d)), CurvatureMeridian(b, LA), "1e-6")
\* that across it reaches from the surface to the axis along the normal
ToAxis == LET k == CurvatureAcross(b, LA)  q == VSub(P, VScale(k, NormalAt(b, P)))
          IN lat \notin {-90, 90} => Near(RHypot(q[1], q[2]), 0, "1e-8")
\* the observer overhead sees the point face on; light from where one looks comes back
Overhead == LET g == GraphicRad(b, LA)
            IN /\ Near(Incidence(b, g, LO, LA, LO), 1, "1e-12")
               /\ Cosine(RMul("0.999999999999", Emission(b, LA, LO, LA, LO, 5000)))
               /\ Near(PhaseCos(b, LA, LO, LA, LO, LA, LO, 5000), 1, "1e-12")
\* a line of sight from far away towards the centre meets the surface below the observer
Below == LET t == Towards(LA, RSub(LO, RDiv(RPi, 2)))
         IN MeetOK(b, VScale(7000, t), VScale(-1, t), 0, LA, LO)
\* both enlarge alike in all directions: along the meridian as across it
Enlarged ==
    LET d == "1e-5"  g == GraphicRad(b, LA)
        e == RSqrt(RSub(1, RSq(RDiv(b.pol, b.eq))))
        y(x) == LET s == RSin(x) IN RMul(b.eq, RSub(RLn(RTan(RAdd(RDiv(RPi, 4), RDiv(x, 2)))),
                                              RMul(RDiv(e, 2), RLn(RDiv(RAdd(1, RMul(e, s)), RSub(1, RMul(e, s)))))))
        r(x) == RMul(2, RTan(RSub(RDiv(RPi, 4), RDiv(x, 2))))
    IN lat \notin {-90, 90} =>
          /\ NearRel(RDiv(RSub(y(RAdd(g, d)), y(RSub(g, d))), RMul(2, d)),
                     RMul(MercatorStretch(b, g), CurvatureMeridian(b, LA)), "1e-6")
          /\ NearRel(RDiv(RSub(r(RSub(g, d)), r(RAdd(g, d))), RMul(2, d)), PolarStretch(g), "1e-6")
=============================================================================
