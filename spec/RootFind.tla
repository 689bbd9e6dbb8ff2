------------------------------ MODULE RootFind ------------------------------
(***************************************************************************)
(* Solving f(x) = y for a monotone f inside a bracket [xl, xh].            *)
(***************************************************************************)
EXTENDS FReal

(* The families of monotone functions the solver is exercised with. *)
F(q, x) ==
    LET a == q.a  b == q.b  c == q.c
        d == RSub(x, c)
    IN CASE q.kind = "linear" -> RAdd(RMul(a, x), b)
         [] q.kind = "cubic"  -> RAdd(RMul(a, RMul(d, RMul(d, d))), RMul(b, d))
         [] q.kind = "exp"    -> RAdd(RMul(a, RExp(RMul(b, x))), c)
         [] q.kind = "atan"   -> RMul(a, RAtan(RMul(b, d)))
         [] q.kind = "kink"   -> IF RLt(x, c) THEN RMul(a, d) ELSE RMul(b, d)
         [] q.kind = "iso"    ->
              LET t == RMul(a, RSin(x))
              IN RAdd(RLn(RTan(RAdd(RDiv(RPi, 4), RDiv(x, 2)))),
                      RMul(RDiv(a, 2), RLn(RDiv(RSub(1, t), RAdd(1, t)))))
         [] q.kind = "stereo" ->
              LET t == RMul(a, RSin(x))
              IN RMul(RMul(b, RTan(RSub(RDiv(RPi, 4), RDiv(x, 2)))),
                      RPow(RDiv(RAdd(1, t), RSub(1, t)), RDiv(a, 2)))

(* Floating point resolution of the abscissa and of the function value:    *)
(* q.noise is the size of the largest intermediate result of F.            *)
Eps == "2.220446049250313E-16"
XRes(x) == RMul(RMul(16, Eps), RMax(1, RAbs(x)))
(* Values below twice the machine epsilon are not told from zero.          *)
YRes(q) == RMax(RMul(4, Eps), RMul(RMul(32, Eps), RMax(q.noise, RAbs(q.y))))

Clamp(q, x) == RMin(RMax(x, RMin(q.xl, q.xh)), RMax(q.xl, q.xh))

(* y lies between the values at both ends, or outside of them, clearly. *)
Lo(q) == RMin(F(q, q.xl), F(q, q.xh))
Hi(q) == RMax(F(q, q.xl), F(q, q.xh))
MayStraddle(q) == RLe(RSub(Lo(q), YRes(q)), q.y) /\ RLe(q.y, RAdd(Hi(q), YRes(q)))
MustStraddle(q) == RLe(RAdd(Lo(q), YRes(q)), q.y) /\ RLe(q.y, RSub(Hi(q), YRes(q)))

IsRoot(q, x) ==
    /\ RIsFinite(x)
    /\ RLe(RMin(q.xl, q.xh), x) /\ RLe(x, RMax(q.xl, q.xh))
    /\ LET u == F(q, Clamp(q, RSub(x, XRes(x))))
           v == F(q, Clamp(q, RAdd(x, XRes(x))))
       IN /\ RLe(RSub(RMin(u, v), YRes(q)), q.y)
          /\ RLe(q.y, RAdd(RMax(u, v), YRes(q)))

(* The only permitted answers. *)
AnswerOK(q, ans, x) ==
    CASE ans = "ok" -> MayStraddle(q) /\ IsRoot(q, x)
      [] ans = "refused" -> ~MustStraddle(q)
      [] OTHER -> FALSE
=============================================================================
