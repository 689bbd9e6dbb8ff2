------------------------------- MODULE FReal -------------------------------
(***************************************************************************)
(* Real arithmetic for the MaRC specification.                             *)
(*                                                                         *)
(* TLC has no reals.  A real is written as a string with its decimal       *)
(* expansion ("2.5", "-1.0E-7", "NaN"); plain TLC integers are accepted    *)
(* where a real is expected.  The primitives below are evaluated by        *)
(* FReal.class (IEEE-754 double precision, spec/java/FReal.java);          *)
(* everything else in the specification is TLA+ over these primitives.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

RAdd(a, b) == CHOOSE x : TRUE
RSub(a, b) == CHOOSE x : TRUE
RMul(a, b) == CHOOSE x : TRUE
RDiv(a, b) == CHOOSE x : TRUE
RPow(a, b) == CHOOSE x : TRUE
RMod(a, b) == CHOOSE x : TRUE    \* sign of the dividend, as C fmod
RNeg(a) == CHOOSE x : TRUE
RAbs(a) == CHOOSE x : TRUE
RSqrt(a) == CHOOSE x : TRUE
RSin(a) == CHOOSE x : TRUE
RCos(a) == CHOOSE x : TRUE
RTan(a) == CHOOSE x : TRUE
RAsin(a) == CHOOSE x : TRUE
RAcos(a) == CHOOSE x : TRUE
RAtan(a) == CHOOSE x : TRUE
RAtan2(a, b) == CHOOSE x : TRUE
RExp(a) == CHOOSE x : TRUE
RLn(a) == CHOOSE x : TRUE
RLog10(a) == CHOOSE x : TRUE
RFloorR(a) == CHOOSE x : TRUE    \* greatest integer <= a, as a real
RCeilR(a) == CHOOSE x : TRUE
RRoundR(a) == CHOOSE x : TRUE    \* nearest integer, halves away from zero
RTruncR(a) == CHOOSE x : TRUE    \* integer part, toward zero
RToInt(a) == CHOOSE x : TRUE     \* an integral real as a TLC integer
RSingle(a) == CHOOSE x : TRUE    \* nearest single precision number
RLt(a, b) == CHOOSE x : TRUE
RLe(a, b) == CHOOSE x : TRUE
REq(a, b) == CHOOSE x : TRUE
RIsNaN(a) == CHOOSE x : TRUE
RIsFinite(a) == CHOOSE x : TRUE
RNorm(a) == CHOOSE x : TRUE      \* canonical spelling of a
RIsNumeral(a) == CHOOSE x : TRUE

(* Derived operators. *)
RPi == "3.141592653589793"
R2Pi == "6.283185307179586"
RGt(a, b) == RLt(b, a)
RGe(a, b) == RLe(b, a)
RSq(a) == RMul(a, a)
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RHypot(a, b) == RSqrt(RAdd(RSq(a), RSq(b)))
Deg(r) == RMul(r, "57.29577951308232")
Rad(d) == RMul(d, "0.017453292519943295")
RFloor(a) == RToInt(RFloorR(a))
RRound(a) == RToInt(RRoundR(a))
RSign(a) == IF RLt(a, 0) THEN -1 ELSE IF RLt(0, a) THEN 1 ELSE 0

(* |a - b| <= tol; two NaNs are close to each other and to nothing else. *)
Near(a, b, tol) ==
    IF RIsNaN(a) \/ RIsNaN(b) THEN RIsNaN(a) /\ RIsNaN(b)
    ELSE RLe(RAbs(RSub(a, b)), tol)
(* |a - b| <= tol * max(1, |a|, |b|) *)
NearRel(a, b, tol) ==
    IF RIsNaN(a) \/ RIsNaN(b) THEN RIsNaN(a) /\ RIsNaN(b)
    ELSE IF REq(a, b) THEN TRUE
    ELSE RLe(RAbs(RSub(a, b)), RMul(tol, RMax(1, RMax(RAbs(a), RAbs(b)))))
(* a = b modulo m, to within tol *)
NearMod(a, b, m, tol) ==
    IF RIsNaN(a) \/ RIsNaN(b) THEN FALSE
    ELSE LET q == RDiv(RSub(a, b), m)
         IN RLe(RAbs(RMul(m, RSub(q, RRoundR(q)))), tol)
(* value of x reduced to [0, m) *)
RWrap(x, m) == LET y == RMod(x, m) IN IF RLt(y, 0) THEN RAdd(y, m) ELSE y
=============================================================================
