-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Numbers in the input language (C03 C04): expressions, and the marks     *)
(* that may follow the expression of an angle or a distance.               *)
(*                                                                         *)
(* A value is a sequence of tokens [c, s, d]: class "int" (digits only),   *)
(* "num" (any other numeral), "op" or "name"; the text; the digits without *)
(* leading zeros of an "int" (otherwise << >>).                            *)
(***************************************************************************)
EXTENDS Body

Bad == [ok |-> FALSE, v |-> "NaN", n |-> 0]
Got(v, n) == [ok |-> TRUE, v |-> v, n |-> n]

Is(t, n, c, s) == n <= Len(t) /\ t[n].c = c /\ t[n].s = s
Op(t, n, s) == Is(t, n, "op", s)

Functions == [sin |-> 1, cos |-> 2, tan |-> 3, asin |-> 4, acos |-> 5, atan |-> 6, ln |-> 7, exp |-> 8, sqrt |-> 9]
Apply(f, x) ==
    CASE f = "sin" -> RSin(x)    [] f = "cos" -> RCos(x)    [] f = "tan" -> RTan(x)
      [] f = "asin" -> RAsin(x)  [] f = "acos" -> RAcos(x)  [] f = "atan" -> RAtan(x)
      [] f = "ln" -> RLn(x)      [] f = "exp" -> RExp(x)    [] f = "sqrt" -> RSqrt(x)

\* sum     ::= product { (+ or -) product }     from the left
\* product ::= signed { (* or /) signed }       from the left
\* signed  ::= (+ or -) signed | power
\* power   ::= atom [ ^ signed ]                from the right, before a sign
\* atom    ::= numeral | ( sum ) | function ( sum )
RECURSIVE SumExpr(_, _), SumExprRest(_, _), Product(_, _), ProductRest(_, _), Signed(_, _), Power(_, _), Atom(_, _)

Atom(t, n) ==
    IF n > Len(t) THEN Bad
    ELSE CASE t[n].c \in {"int", "num"} -> IF RIsFinite(t[n].s) THEN Got(RNorm(t[n].s), n + 1) ELSE Bad
           [] t[n].c = "op" /\ t[n].s = "(" ->
                LET x == SumExpr(t, n + 1) IN IF x.ok /\ Op(t, x.n, ")") THEN Got(x.v, x.n + 1) ELSE Bad
           [] t[n].c = "name" /\ t[n].s \in DOMAIN Functions /\ Op(t, n + 1, "(") ->
                LET x == SumExpr(t, n + 2) IN IF x.ok /\ Op(t, x.n, ")") THEN Got(Apply(t[n].s, x.v), x.n + 1) ELSE Bad
           [] OTHER -> Bad

Power(t, n) ==
    LET a == Atom(t, n)
    IN IF a.ok /\ Op(t, a.n, "^")
       THEN LET e == Signed(t, a.n + 1) IN IF e.ok THEN Got(RPow(a.v, e.v), e.n) ELSE Bad
       ELSE a

Signed(t, n) ==
    IF Op(t, n, "-") THEN LET x == Signed(t, n + 1) IN IF x.ok THEN Got(RNeg(x.v), x.n) ELSE Bad
    ELSE IF Op(t, n, "+") THEN Signed(t, n + 1)
    ELSE Power(t, n)

ProductRest(t, x) ==
    IF ~x.ok THEN Bad
    ELSE IF Op(t, x.n, "*")
    THEN LET y == Signed(t, x.n + 1) IN IF y.ok THEN ProductRest(t, Got(RMul(x.v, y.v), y.n)) ELSE Bad
    ELSE IF Op(t, x.n, "/")
    THEN LET y == Signed(t, x.n + 1)
         IN IF y.ok /\ ~REq(y.v, 0) THEN ProductRest(t, Got(RDiv(x.v, y.v), y.n)) ELSE Bad
    ELSE x
Product(t, n) == ProductRest(t, Signed(t, n))

SumExprRest(t, x) ==
    IF ~x.ok THEN Bad
    ELSE IF Op(t, x.n, "+")
    THEN LET y == Product(t, x.n + 1) IN IF y.ok THEN SumExprRest(t, Got(RAdd(x.v, y.v), y.n)) ELSE Bad
    ELSE IF Op(t, x.n, "-")
    THEN LET y == Product(t, x.n + 1) IN IF y.ok THEN SumExprRest(t, Got(RSub(x.v, y.v), y.n)) ELSE Bad
    ELSE x
SumExpr(t, n) == SumExprRest(t, Product(t, n))

(* A value followed by marks: [ok, v, m], m the texts of the marks. *)
Marked(t) ==
    LET x == SumExpr(t, 1)
    IN IF ~x.ok \/ ~RIsFinite(x.v) THEN [ok |-> FALSE, v |-> "NaN", m |-> << >>]
       ELSE LET rest == SubSeq(t, x.n, Len(t))
            IN [ok |-> \A j \in 1..Len(rest) : rest[j].c = "name", v |-> x.v, m |-> [j \in 1..Len(rest) |-> rest[j].s]]

NoValue == [ok |-> FALSE, v |-> "NaN"]
Value(v) == [ok |-> TRUE, v |-> v]

(* A bare expression within a domain P. *)
Plain(t, P(_)) == LET x == Marked(t) IN IF x.ok /\ x.m = << >> /\ P(x.v) THEN Value(x.v) ELSE NoValue

(* The shape of a body: two of equatorial radius, polar radius and          *)
(* flattening ("": not given).                                              *)
Shape(e) == [ eq |-> IF e.eq # "" THEN e.eq ELSE RDiv(e.pol, RSub(1, e.flat)),
              pol |-> IF e.pol # "" THEN e.pol ELSE RMul(e.eq, RSub(1, e.flat)),
              pro |-> e.pro ]

(* Planetocentric latitude, degrees. *)
Latitude(b, t) ==
    LET x == Marked(t)
        hemi == IF Len(x.m) > 0 /\ x.m[1] \in {"N", "S"} THEN x.m[1] ELSE ""
        rest == IF hemi = "" THEN x.m ELSE Tail(x.m)
        signed == IF hemi = "S" THEN RNeg(x.v) ELSE x.v
    IN IF /\ x.ok
          /\ rest \in { << >>, << "C" >>, << "G" >> }
          /\ RLe(RAbs(x.v), 90)
          /\ hemi # "" => RLe(0, x.v)
       THEN Value(IF rest = << "G" >> THEN Centric(b, signed) ELSE signed)
       ELSE NoValue

(* Longitude in the body's own sense (west if prograde), degrees in [0, 360]. *)
Longitude(b, t) ==
    LET x == Marked(t)
        own == IF b.pro THEN "W" ELSE "E"
    IN IF x.ok /\ x.m \in { << >>, << "E" >>, << "W" >> } /\ RLe(RAbs(x.v), 360)
       THEN Value(IF x.m \in { << >>, << own >> } THEN RWrap(x.v, 360) ELSE RSub(360, RWrap(x.v, 360)))
       ELSE NoValue

(* Position angle, counter-clockwise, degrees in [0, 360]. *)
PositionAngle(t) ==
    LET x == Marked(t)
    IN IF x.ok /\ x.m \in { << >>, << "CW" >>, << "CCW" >> } /\ RLe(RAbs(x.v), 360)
       THEN Value(IF x.m = << "CW" >> THEN RSub(360, RWrap(x.v, 360)) ELSE RWrap(x.v, 360))
       ELSE NoValue

(* Distance, km. *)
AU == "149597870.7"
Distance(t) ==
    LET x == Marked(t)
    IN IF x.ok /\ x.m \in { << >>, << "KM" >>, << "AU" >> }
       THEN Value(IF x.m = << "AU" >> THEN RMul(x.v, AU) ELSE x.v)
       ELSE NoValue

-----------------------------------------------------------------------------
(* Whole numbers, compared digit by digit: they may exceed TLC's integers.   *)
RECURSIVE DigitsLe(_, _)
DigitsLe(a, b) ==    \* same length
    IF a = << >> THEN TRUE
    ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
    ELSE DigitsLe(Tail(a), Tail(b))
MagnitudeLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ DigitsLe(a, b))

(* [ok, neg, d]: sign and digits (zero: no digits) *)
Whole(t) ==
    LET sign == IF Len(t) = 2 /\ t[1].c = "op" /\ t[1].s \in {"+", "-"} THEN t[1].s ELSE ""
        k == IF sign = "" THEN 1 ELSE 2
    IN IF Len(t) = k /\ t[k].c = "int"
       THEN [ok |-> TRUE, neg |-> sign = "-" /\ t[k].d # << >>, d |-> t[k].d]
       ELSE [ok |-> FALSE, neg |-> FALSE, d |-> << >>]

RECURSIVE AsNumber(_)
AsNumber(d) == IF d = << >> THEN 0 ELSE 10 * AsNumber(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]

MinOf == [ BYTE |-> << >>, SHORT |-> <<3,2,7,6,8>>, LONG |-> <<2,1,4,7,4,8,3,6,4,8>>,
           LONGLONG |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>> ]      \* magnitude of the least
MaxOf == [ BYTE |-> <<2,5,5>>, SHORT |-> <<3,2,7,6,7>>, LONG |-> <<2,1,4,7,4,8,3,6,4,7>>,
           LONGLONG |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>> ]
WholeFits(w, type) == w.ok /\ IF w.neg THEN MagnitudeLe(w.d, MinOf[type]) ELSE MagnitudeLe(w.d, MaxOf[type])
=============================================================================
