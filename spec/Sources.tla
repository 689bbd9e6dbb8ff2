------------------------------ MODULE Sources ------------------------------
(***************************************************************************)
(* Where the data of a map plane comes from.  A plane is a record with     *)
(*   kind      "lat", "lon", "mu", "mu0", "phase" or "images"              *)
(*   graphic   (lat)                                                       *)
(*   obsLat, obsLon, range, sunLat, sunLon    (cosines)                    *)
(*   avg       "none", "unweighted", "weighted"; imgs: sequence of images  *)
(*   min, max  the plane's inclusive physical data range ("" : none)       *)
(* An image has, besides the fields of ViewGeom,                           *)
(*   data, flat          values in file order (flat empty: none)           *)
(*   invH, invV          inversions, made before anything else             *)
(*   nl, nr, nt, nb      nibbled samples and lines of the inverted image   *)
(*   sky                 sky removal                                       *)
(*   interp              bilinear interpolation                            *)
(* The datum of a source at a point is described by the set of outcomes    *)
(* rounding allows (a single one almost everywhere): "none" or a value.    *)
(***************************************************************************)
EXTENDS ViewGeom, FiniteSets, TLC

-----------------------------------------------------------------------------
(* What is known about an image before any point is looked up. *)
Prepare(b, m) ==
    LET g == Sees(b, m)
    IN [geom |-> g,
        mask |-> IF m.sky
                 THEN [j \in 1..(m.n * m.m) |->
                        LET i == (j - 1) % m.n  k == (j - 1) \div m.n
                        IN Meets(b, m, g, RAdd(i, "0.5"), RAdd(k, "0.5"))]
                 ELSE << >>]

OnBody(m, q, i, k) == IF m.sky THEN q.mask[k * m.n + i + 1] ELSE {TRUE}

(* Physical value of a pixel of the inverted and calibrated image. *)
PixelValue(m, i, k) ==
    LET fi == IF m.invH THEN m.n - 1 - i ELSE i
        fk == IF m.invV THEN m.m - 1 - k ELSE k
        j == fk * m.n + fi + 1
    IN IF m.flat = << >> THEN m.data[j] ELSE RSub(m.data[j], m.flat[j])

Usable(m, i, k) == /\ m.nl <= i /\ i < m.n - m.nr
                   /\ m.nt <= k /\ k < m.m - m.nb

PosTol == "0.00001"

(* Pixel numbers a coordinate may belong to; -1 stands for "outside". *)
Cells(x, size) ==
    LET C(y) == IF ~RIsFinite(y) \/ RLt(y, 0) \/ RGe(y, size) THEN -1 ELSE RFloor(y)
    IN { C(RSub(x, PosTol)), C(RAdd(x, PosTol)) }

Bilinear(m, x, z, i, k) ==
    LET dx == RSub(x, i)
        dz == RSub(z, k)
        ws == << RMul(RSub(1, dx), RSub(1, dz)), RMul(dx, RSub(1, dz)),
                 RMul(RSub(1, dx), dz), RMul(dx, dz) >>
        vs == << PixelValue(m, i, k), PixelValue(m, i + 1, k),
                 PixelValue(m, i, k + 1), PixelValue(m, i + 1, k + 1) >>
        good == { j \in 1..4 : ~RIsNaN(vs[j]) }
        Sum[S \in SUBSET good] ==
            IF S = {} THEN << "0.0", "0.0" >>
            ELSE LET j == CHOOSE j \in S : TRUE
                     r == Sum[S \ {j}]
                 IN << RAdd(r[1], RMul(ws[j], vs[j])), RAdd(r[2], ws[j]) >>
        t == Sum[good]
    IN IF REq(t[2], 0) THEN "none" ELSE RDiv(t[1], t[2])

(* Distance, in pixels, to the nearest edge or sky. *)
MinInt(S) == CHOOSE x \in S : \A y \in S : x <= y
Weight(m, q, i, k) ==
    LET edges == { i + 1, m.n - i, k + 1, m.m - k }
        Sky(ii, kk) == TRUE \notin OnBody(m, q, ii, kk)
        row == { IF ii < i THEN i - ii ELSE ii - i :
                    ii \in { x \in m.nl .. (m.n - m.nr - 1) : Sky(x, k) } }
        col == { IF kk < k THEN k - kk ELSE kk - k :
                    kk \in { x \in m.nt .. (m.m - m.nb - 1) : Sky(i, x) } }
    IN MinInt(edges \cup (IF m.sky THEN row \cup col ELSE {}))
(* Weights may differ where rounding decides whether a pixel is sky. *)
WeightSure(m, q, i, k) ==
    ~m.sky \/ (/\ \A x \in m.nl .. (m.n - m.nr - 1) : Cardinality(OnBody(m, q, x, k)) = 1
               /\ \A x \in m.nt .. (m.m - m.nb - 1) : Cardinality(OnBody(m, q, i, x)) = 1)

NoDatum == [v |-> "none", w |-> 0, sure |-> TRUE]

(* Outcomes of looking up a surface point in one image: records with value *)
(* v ("none": no datum), weight w and whether the weight is certain.       *)
AtCell(m, q, x, z, i, k) ==
    IF i = -1 \/ k = -1 THEN {NoDatum}
    ELSE IF ~Usable(m, i, k) THEN {NoDatum}
    ELSE { IF ~on THEN NoDatum
           ELSE LET v == IF m.interp
                         THEN (IF Usable(m, i + 1, k + 1) THEN Bilinear(m, x, z, i, k) ELSE "none")
                         ELSE PixelValue(m, i, k)
                IN IF v = "none" THEN NoDatum
                   ELSE IF RIsNaN(v) THEN NoDatum
                   ELSE [v |-> v, w |-> Weight(m, q, i, k), sure |-> WeightSure(m, q, i, k)]
           : on \in OnBody(m, q, i, k) }

ImageOutcomes(b, m, q, p) ==
    UNION { IF ~vis THEN {NoDatum}
            ELSE LET s == Position(m, q.geom, p)
                 IN UNION { AtCell(m, q, s[1], s[2], i, k) :
                              i \in Cells(s[1], m.n), k \in Cells(s[2], m.m) }
            : vis \in Visible(b, m, q.geom, p) }

-----------------------------------------------------------------------------
(* Combining what the images of a plane have at a point. *)
RECURSIVE Choices(_)
Choices(ss) ==     \* all ways to pick one outcome per image
    IF ss = << >> THEN { << >> }
    ELSE { << o >> \o c : o \in Head(ss), c \in Choices(Tail(ss)) }

Contributors(c) == SelectSeq(c, LAMBDA o : o.v # "none")

RECURSIVE SumOf(_, _)
SumOf(F(_), s) == IF s = << >> THEN "0.0" ELSE RAdd(F(Head(s)), SumOf(F, Tail(s)))

Combine(avg, c) ==
    LET s == Contributors(c)
    IN IF s = << >> THEN "none"
       ELSE IF Len(s) = 1 \/ avg = "none" THEN s[1].v
       ELSE IF avg = "unweighted" THEN RDiv(SumOf(LAMBDA o : o.v, s), Len(s))
       ELSE RDiv(SumOf(LAMBDA o : RMul(o.w, o.v), s), SumOf(LAMBDA o : o.w, s))

(* A mean whose weights are in doubt may be anything between the extremes. *)
Doubtful(avg, c) ==
    LET s == Contributors(c)
    IN avg = "weighted" /\ Len(s) > 1 /\ \E j \in 1..Len(s) : ~s[j].sure

-----------------------------------------------------------------------------
(* Outcomes of a plane's source at planetocentric lat, lon (degrees); qs   *)
(* are the prepared images.  "any": too close to call.                     *)
PlaneOutcomes(b, pl, qs, lat, lon) ==
    LET p == SurfacePoint(b, lat, lon)
        O == VScale(pl.range, Direction(b, pl.obsLat, pl.obsLon))
        S == Direction(b, pl.sunLat, pl.sunLon)
    IN CASE pl.kind = "lat" -> { IF pl.graphic THEN Graphic(b, lat) ELSE lat }
         [] pl.kind = "lon" -> { lon }
         [] pl.kind = "mu" -> { Mu(b, O, p) }
         [] pl.kind = "mu0" -> { Mu0(b, S, p) }
         [] pl.kind = "phase" -> { CosPhase(O, S, p) }
         [] pl.kind = "images" ->
              { IF Doubtful(pl.avg, c) THEN "any" ELSE Combine(pl.avg, c)
                : c \in Choices(TLCEval([j \in 1..Len(pl.imgs) |-> ImageOutcomes(b, pl.imgs[j], qs[j], p)])) }

(* Error allowed in the value of a source. *)
SourceTol(pl) ==
    IF pl.kind # "images" THEN "0.00000001"
    ELSE IF pl.avg = "none" \/ Len(pl.imgs) = 1
         THEN (IF \E j \in 1..Len(pl.imgs) : pl.imgs[j].interp THEN "0.001" ELSE "0.0")
         ELSE (IF \E j \in 1..Len(pl.imgs) : pl.imgs[j].interp THEN "0.001" ELSE "0.000000001")
=============================================================================
