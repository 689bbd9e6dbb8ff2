--------------------------- MODULE GeometryTrace ---------------------------
(* Answers of the library recorded call by call, against Geometry.tla (C27). *)
EXTENDS TraceKit, Geometry

VARIABLE body       \* the spheroid asked about

AllNear(a, b, t) == Len(a) = Len(b) /\ \A i \in DOMAIN a : ~RIsNaN(a[i]) /\ RLe(RAbs(RSub(a[i], b[i])), t[i])
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i], b[i])
Each(a, t) == [i \in DOMAIN a |-> t]

BodyMade == /\ Ev.op = "body"
            /\ Ev.ok = PossibleBody(Ev.eq, Ev.pol)
            /\ Ev.ok => /\ REq(Ev.r[1], Ev.eq) /\ REq(Ev.r[2], Ev.pol)
                        /\ Near(Ev.r[3], RSub(1, RDiv(Ev.pol, Ev.eq)), "1e-12")
                        /\ Near(RSq(Ev.r[4]), RSub(1, RSq(RDiv(Ev.pol, Ev.eq))), "1e-12") /\ RLe(0, Ev.r[4])
            /\ body' = IF Ev.ok THEN [eq |-> Ev.eq, pol |-> Ev.pol, pro |-> TRUE] ELSE body
Asked(op) == Ev.op = op /\ body' = body
Lat == /\ Asked("lat")
       /\ RelNear(Ev.r[1], SurfaceRadius(body, Ev.lat), "1e-11")
       /\ Near(Ev.r[2], CentricRad(body, Ev.lat), "1e-10")
       /\ Near(Ev.r[3], GraphicRad(body, Ev.lat), "1e-10")
       /\ RelNear(Ev.r[4], CurvatureMeridian(body, Ev.lat), "1e-9")
       /\ RelNear(Ev.r[5], CurvatureAcross(body, Ev.lat), "1e-9")
Dist == /\ Asked("dist")
        /\ RelNear(Ev.r[1], MercatorStretch(body, Ev.lat), "1e-9")
        /\ REq(body.eq, body.pol) => /\ RelNear(Ev.r[2], PolarStretch(Ev.lat), "1e-9")
                                    /\ RelNear(Ev.r[3], PolarStretch(RNeg(Ev.lat)), "1e-9")
Light == /\ Asked("light")
         /\ \A i \in 1..3 : Cosine(Ev.r[i])
         /\ Near(Ev.r[1], Emission(body, Ev.o[1], Ev.o[2], Ev.p[1], Ev.p[2], Ev.range), "1e-8")
         /\ Near(Ev.r[2], Incidence(body, Ev.s[1], Ev.s[2], Ev.p[1], Ev.p[2]), "1e-9")
         /\ Near(Ev.r[3], PhaseCos(body, Ev.o[1], Ev.o[2], Ev.s[1], Ev.s[2], Ev.p[1], Ev.p[2], Ev.range), "1e-8")
Meet == Asked("meet") /\ MeetOK(body, Ev.v, Ev.d, Ev.code, Ev.lat, Ev.lon)

Rot == /\ Asked("rot")
       /\ \E A \in {Turn(Ev.axis, Ev.t)} :
             \E t \in {AppliedTol(A, Ev.v)} :
                /\ AllNear(Ev.r, Applied(A, Ev.v), [i \in 1..3 |-> RAdd(t[i], RMul("1e-13", RTop(Ev.v)))])
                /\ AllNear(Ev.m, A.e, Each(A.e, "1e-13"))
                /\ AllNear(Ev.mv, Applied(A, Ev.v), [i \in 1..3 |-> RAdd(t[i], RMul("1e-13", RTop(Ev.v)))])
Vec == /\ Asked("vec")
       /\ RelNear(Ev.mag, Magnitude(Ev.a), "1e-12")
       /\ Same(Ev.sum, Sum(Ev.a, Ev.b)) /\ Same(Ev.dif, Difference(Ev.a, Ev.b))
       /\ Same(Ev.ak, Multiple(Ev.k, Ev.a)) /\ Same(Ev.ka, Ev.ak)
       /\ Near(Ev.dot, Inner(Ev.a, Ev.b), InnerTol(Ev.a, Ev.b))
       /\ Ev.eq = (\A i \in DOMAIN Ev.a : REq(Ev.a[i], Ev.b[i])) /\ Ev.ne = ~Ev.eq /\ Ev.bad = 0
       /\ Same(Ev.sum2, Ev.sum) /\ Same(Ev.dif2, Ev.dif) /\ Same(Ev.ak2, Ev.ak)
       /\ Ev.unit # <<>> => AllNear(Ev.unit, Multiple(RDiv(1, Magnitude(Ev.a)), Ev.a), Each(Ev.a, "1e-12"))
Mat == /\ Asked("mat")
       /\ \E A \in {[m |-> Ev.dim[1], n |-> Ev.dim[2], e |-> Ev.a]}, C \in {[m |-> Ev.dim[2], n |-> Ev.dim[3], e |-> Ev.c]} :
             /\ Same(Ev.tr, Transposed(A).e)
             /\ AllNear(Ev.ac, Product(A, C).e, ProductTol(A, C))
             /\ AllNear(Ev.ax, Applied(A, Ev.x), AppliedTol(A, Ev.x))
       /\ Same(Ev.sum, Sum(Ev.a, Ev.b)) /\ Same(Ev.dif, Difference(Ev.a, Ev.b))
       /\ Same(Ev.ak, Multiple(Ev.k, Ev.a)) /\ Same(Ev.ka, Ev.ak)
       /\ Ev.eq = (\A i \in DOMAIN Ev.a : REq(Ev.a[i], Ev.b[i])) /\ Ev.ne = ~Ev.eq /\ Ev.bad = 0
       /\ Same(Ev.sum2, Ev.sum) /\ Same(Ev.dif2, Ev.dif) /\ Same(Ev.ak2, Ev.ak)
Quad == Asked("quad") /\ QuadraticOK(Ev.a, Ev.b, Ev.c, Ev.ok, Ev.x, Ev.y)
Sign == Asked("sign") /\ Ev.r = << RSign(Ev.x), IF RLt(Ev.x, 0) THEN -1 ELSE 1 >>
Flip == /\ Asked("flip")
        /\ IF Len(Ev.p) = Ev.w * Ev.h
           THEN ~Ev.t /\ ~Ev.u /\ Ev.cols = MirrorColumns(Ev.w, Ev.p) /\ Ev.lines = MirrorLines(Ev.w, Ev.h, Ev.p)
           ELSE Ev.t /\ Ev.u /\ Ev.cols = Ev.p /\ Ev.lines = Ev.p

Init == KitInit /\ body = [eq |-> 1, pol |-> 1, pro |-> TRUE]
Next == More /\ (BodyMade \/ Lat \/ Dist \/ Light \/ Meet \/ Rot \/ Vec \/ Mat \/ Quad \/ Sign \/ Flip) /\ Consume
Spec == Init /\ [][Next]_<<sc, l, body>>
=============================================================================
