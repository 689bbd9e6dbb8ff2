----------------------------- MODULE RootFindMC -----------------------------
(***************************************************************************)
(* The algorithm of the bracketing solver on a discrete abscissa 0..N: any *)
(* interior point may be proposed by a Newton step (the derivative is      *)
(* unreliable), bisection is forced after MaxNewton iterations.  For every *)
(* monotone step function f and target y whose bracket straddles it, in    *)
(* either orientation, the root stays bracketed and the search ends.       *)
(***************************************************************************)
EXTENDS Integers, TLC

CONSTANTS N, MaxNewton, MaxIter

VARIABLES root,      \* smallest abscissa with f >= y (the sign change)
          up,        \* f increases with the abscissa
          lo, hi,    \* end whose value is below y, end whose value is not
          i, done, refused

vars == <<root, up, lo, hi, i, done, refused>>

\* f(x) >= y ?
AtLeast(x) == IF up THEN x >= root ELSE x <= root

Init == /\ root \in -1..(N + 1) /\ up \in BOOLEAN
        /\ i = 0 /\ done = FALSE
        /\ refused = (AtLeast(0) = AtLeast(N))
        /\ IF AtLeast(0) THEN lo = N /\ hi = 0 ELSE lo = 0 /\ hi = N

Between(x) == (lo < x /\ x < hi) \/ (hi < x /\ x < lo)
Adjacent == lo - hi \in {-1, 1}
Move(x) == IF AtLeast(x) THEN hi' = x /\ lo' = lo ELSE lo' = x /\ hi' = hi

Newton == /\ ~done /\ ~refused /\ ~Adjacent /\ i < MaxNewton
          /\ \E x \in 0..N : Between(x) /\ Move(x)
          /\ i' = i + 1 /\ UNCHANGED <<root, up, done, refused>>
Bisect == /\ ~done /\ ~refused /\ ~Adjacent /\ i < MaxIter
          /\ Move((lo + hi) \div 2)
          /\ i' = i + 1 /\ UNCHANGED <<root, up, done, refused>>
Finish == /\ ~done /\ ~refused /\ Adjacent /\ done' = TRUE
          /\ UNCHANGED <<root, up, lo, hi, i, refused>>

Next == Newton \/ Bisect \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bracketed == ~refused => (AtLeast(hi) /\ ~AtLeast(lo))
Found == done => root \in {lo, hi}
NeverStuck == (~done /\ ~refused /\ ~Adjacent) => i < MaxIter
Terminates == <>(done \/ refused)
=============================================================================
