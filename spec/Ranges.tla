------------------------------- MODULE Ranges -------------------------------
(***************************************************************************)
(* Ranges of values: what the library keeps of the data it was shown       *)
(* (extrema), how a range is carried into another data type, which angles  *)
(* are accepted, and the scale and offset with which real data go into an  *)
(* integer type.                                                           *)
(*                                                                         *)
(* A bound is <<>> (not set) or <<x>>.  A range is a pair of bounds of     *)
(* values of a data type.  The operations are actions on ranges held under *)
(* names; RangesMC explores them and RangesTrace replays recorded calls.   *)
(***************************************************************************)
EXTENDS FReal

Limit == [u8  |-> << "0.0", "255.0" >>,
          i16 |-> << "-32768.0", "32767.0" >>,
          i32 |-> << "-2147483648.0", "2147483647.0" >>,
          i64 |-> << "-9.223372036854775808E18", "9.223372036854775807E18" >>,
          f32 |-> << "-3.4028234663852886E38", "3.4028234663852886E38" >>,
          f64 |-> << "-Infinity", "Infinity" >>,
          tiny |-> << -1, 2 >>,      \* two small types for the explored model
          wide |-> << -3, 4 >>]
Whole(t) == t \notin {"f32", "f64"}
Digits10 == [u8 |-> 2, i16 |-> 4, i32 |-> 9, i64 |-> 18]

Clip(t, x) == IF RLt(x, Limit[t][1]) THEN Limit[t][1] ELSE IF RLt(Limit[t][2], x) THEN Limit[t][2] ELSE x

(* y is what x becomes as a value of type t: the closest limit where x is  *)
(* beyond the type, and otherwise x, or a neighbour where the type has no  *)
(* such number.                                                            *)
Into(t, x, y) ==
    \E c \in {Clip(t, x)} :
        IF Whole(t) THEN REq(y, RFloorR(c)) \/ REq(y, RCeilR(c))
        ELSE IF t = "f32" THEN REq(y, RSingle(c))
        ELSE REq(y, c)
IntoB(t, b, c) == Len(b) = Len(c) /\ \A i \in DOMAIN b : Into(t, b[i], c[i])

Unset == [lo |-> <<>>, hi |-> <<>>]
SameB(b, c) == Len(b) = Len(c) /\ \A i \in DOMAIN b : REq(b[i], c[i])
SameR(r, s) == SameB(r.lo, s.lo) /\ SameB(r.hi, s.hi)

Lower(b, x) == IF b = <<>> \/ RLt(x, b[1]) THEN << x >> ELSE b
Upper(b, x) == IF b = <<>> \/ RLt(b[1], x) THEN << x >> ELSE b

(* The operations.  Those that convert are relations: r is the result. *)
WithDatum(r, x) == [lo |-> Lower(r.lo, x), hi |-> Upper(r.hi, x)]
Merged(r, s) == [lo |-> IF s.lo = <<>> THEN r.lo ELSE Lower(r.lo, s.lo[1]),
                 hi |-> IF s.hi = <<>> THEN r.hi ELSE Upper(r.hi, s.hi[1])]
MadeOK(t, x, y, r) == r.lo # <<>> /\ r.hi # <<>> /\ Into(t, x, r.lo[1]) /\ Into(t, y, r.hi[1]) /\ RLe(r.lo[1], r.hi[1])
MustRefuse(x, y) == RIsNaN(x) \/ RIsNaN(y)
MustMake(x, y) == ~MustRefuse(x, y) /\ RLe(x, y)
ConvertedOK(t, s, r) == IntoB(t, s.lo, r.lo) /\ IntoB(t, s.hi, r.hi)

Valid(r) == r.lo # <<>> /\ r.hi # <<>> /\ RLe(r.lo[1], r.hi[1])
(* Whether v is in the range; with one bound only the answer is open. *)
InRangeOK(r, v, yes) ==
    IF r.lo = <<>> /\ r.hi = <<>> THEN ~yes
    ELSE IF r.lo = <<>> \/ r.hi = <<>> THEN TRUE
    ELSE yes = (~RIsNaN(v) /\ RLe(r.lo[1], v) /\ RLe(v, r.hi[1]))

-----------------------------------------------------------------------------
(* Angles in degrees that are turned into radians, or refused. *)
AngleLimit == [lat |-> 90, lon |-> 360, pa |-> 360]
AngleOK(k, x, ok, r) == /\ ok = (~RIsNaN(x) /\ RLe(RAbs(x), AngleLimit[k]))
                        /\ ok => RLe(RAbs(RSub(r, Rad(x))), RMul("1e-14", RAbs(Rad(x))))

(* What stands in a map of type t where there are no data. *)
EmptyOK(t, x) == IF Whole(t) THEN REq(x, 0) ELSE RIsNaN(x)

-----------------------------------------------------------------------------
(* The scale s and offset o for storing data from a to b in type t. *)
Span(t) == RSub(Limit[t][2], Limit[t][1])
PowerOfTen(s) == RIsFinite(s) /\ RLe(1, s) /\ RLe(RAbs(RSub(RDiv(s, RPow(10, RRoundR(RLog10(s)))), 1)), "1e-13")
FitsAs(t, a, b, s, o, tol) == /\ RLe(RSub(Limit[t][1], tol), RAdd(RMul(s, a), o))
                              /\ RLe(RAdd(RMul(s, b), o), RAdd(Limit[t][2], tol))
NoScale(t, a, b) == \/ ~RIsFinite(a) \/ ~RIsFinite(b) \/ ~RIsFinite(RSub(b, a))
                    \/ RLt(b, a)
                    \/ RLt(RMul("1.000000001", Span(t)), RSub(b, a))
(* whole numbers may fill the type to the last value *)
Exact(t, x) == t # "i64" /\ REq(x, RTruncR(x)) /\ RLe(RAbs(x), "1e15")
SomeScale(t, a, b) == ~NoScale(t, a, b) /\ RLe(RSub(b, a), IF Exact(t, a) /\ Exact(t, b) THEN Span(t) ELSE RMul("0.999", Span(t)))
ScaleOK(t, a, b, ok, s, o) ==
    IF ~Whole(t) THEN ok /\ REq(s, 1) /\ REq(o, 0)
    ELSE /\ NoScale(t, a, b) => ~ok
         /\ SomeScale(t, a, b) => ok
         /\ ok => /\ PowerOfTen(s)
                  /\ FitsAs(t, a, b, s, o, RMul("1e-9", Span(t)))
                  /\ (RLe(Limit[t][1], RMul(s, a)) /\ RLe(RMul(s, b), Limit[t][2])) => REq(o, 0)
                  /\ RLt(a, b) => RLe(RMul("0.999999999", RPow(10, Digits10[t] - 1)), RMul(s, RSub(b, a)))
=============================================================================
