----------------------------- MODULE ViewTrace -----------------------------
(***************************************************************************)
(* Recorded conversions between image positions and body coordinates       *)
(* against ViewGeom.tla (C23, C12).                                        *)
(*                                                                         *)
(* cfg: [body, m] with m an image of ViewGeom; events in order:            *)
(*   setup  [ok]                                                           *)
(*   see    [lat, lon, ok, x, z]         point to position                 *)
(*   point  [x, z, ok, lat, lon]         position to point                 *)
(*   there  [lat, lon, ok, ok2, lat2, lon2]    point, position, point      *)
(*   back   [x, z, ok, ok2, x2, z2]      position, point, position         *)
(*   mask   [k, bits]                    line k of the body mask           *)
(***************************************************************************)
EXTENDS TraceKit, ViewGeom

VARIABLE g    \* how the camera sees the body

B == Cfg.body
M == Cfg.m

(* Rounding errors of a line of sight grow with the distance. *)
Far == RDiv(M.range, B.eq)
LimbTol == RAdd("0.000000001", RMul("0.000000000000004", RSq(Far)))
PixTol == RAdd("0.000001", RMul("0.00000000000001", RMul(Far, RAdd(g.f, Far))))

OnLimb(x, z) ==    \* too close to the limb to say
    Cardinality(MeetsTol(B, M, g, x, z, LimbTol)) = 2

CloseTo(x, z, q) == /\ RLe(RAbs(RSub(x, q[1])), PixTol)
                    /\ RLe(RAbs(RSub(z, q[2])), PixTol)

Setup == /\ Ev.op = "setup" /\ l = 0
         /\ Ev.ok \in Orientable(M)
         /\ g' = (IF Ev.ok THEN Sees(B, M) ELSE g)
         /\ Consume

See == /\ Ev.op = "see"
       /\ \E p \in { SurfacePoint(B, Ev.lat, Ev.lon) } :
          \E q \in { Position(M, g, p) } :
             IF RIsNaN(q[1]) THEN ~Ev.ok
             ELSE /\ Ev.ok \in Visible(B, M, g, p)
                  /\ Ev.ok => CloseTo(Ev.x, Ev.z, q)
       /\ UNCHANGED g
       /\ Consume

(* A position shows a point iff the point is seen there and faces the      *)
(* observer.                                                               *)
ShowsPoint(x, z, lat, lon) ==
    LET p == SurfacePoint(B, lat, lon)
    IN /\ RLe(RAbs(lat), "90.0000001")
       /\ CloseTo(x, z, Position(M, g, p))
       /\ RGt(Mu(B, g.O, p), RNeg(RAdd("0.00001", RMul(2, RSqrt(LimbTol)))))

Point == /\ Ev.op = "point"
         /\ Ev.ok \in MeetsTol(B, M, g, Ev.x, Ev.z, LimbTol)
         /\ (Ev.ok /\ ~OnLimb(Ev.x, Ev.z)) => ShowsPoint(Ev.x, Ev.z, Ev.lat, Ev.lon)
         /\ UNCHANGED g
         /\ Consume

(* There and back.  Close to the limb the way back is ill-conditioned.     *)
There == /\ Ev.op = "there"
         /\ \E p \in { SurfacePoint(B, Ev.lat, Ev.lon) } :
            \E mu \in { Mu(B, g.O, p) } :
               /\ (RIsNaN(Position(M, g, p)[1]) /\ ~Ev.ok) \/ Ev.ok \in Visible(B, M, g, p)
               /\ (Ev.ok /\ RGt(mu, "0.01")) =>
                    /\ Ev.ok2
                    /\ LET r == SurfacePoint(B, Ev.lat2, Ev.lon2)
                           d == VSub(r, p)
                       IN RLe(RSqrt(Dot(d, d)),
                              RMul(B.eq, RDiv(RAdd("0.00000001", RMul("0.00000000000001", RSq(Far))), mu)))
         /\ UNCHANGED g
         /\ Consume

Back == /\ Ev.op = "back"
        /\ Ev.ok \in MeetsTol(B, M, g, Ev.x, Ev.z, LimbTol)
        /\ (Ev.ok /\ ~OnLimb(Ev.x, Ev.z)) =>
              LET p == FirstPoint(B, M, g, Ev.x, Ev.z)
              IN /\ (RGt(Mu(B, g.O, p), "0.001") => Ev.ok2 \in Visible(B, M, g, p))
                 /\ Ev.ok2 => CloseTo(Ev.x, Ev.z, << Ev.x2, Ev.z2 >>)
        /\ UNCHANGED g
        /\ Consume

Mask == /\ Ev.op = "mask"
        /\ Len(Ev.bits) = M.n
        /\ \A j \in 1..Len(Ev.bits) :
              Ev.bits[j] \in MeetsTol(B, M, g, RAdd(j - 1, "0.5"), RAdd(Ev.k, "0.5"), LimbTol)
        /\ UNCHANGED g
        /\ Consume

Init == KitInit /\ g = << >>
Next == More /\ (Setup \/ (Ev.op # "setup" /\ g # << >> /\ (See \/ Point \/ There \/ Back \/ Mask)))
Spec == Init /\ [][Next]_<< sc, l, g >>
=============================================================================
