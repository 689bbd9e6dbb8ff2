------------------------------ MODULE FactsMC ------------------------------
(***************************************************************************)
(* Merging facts source by source, plane by plane, checked exhaustively    *)
(* against its meaning: planes are gathered one after another, the sources *)
(* of a plane too, and the result completes what the user said.            *)
(***************************************************************************)
EXTENDS Facts, FiniteSets

CONSTANTS Keys, Values, TypesUsed, MaxSources

Vals == [Keys -> Values \cup {""}]
FactSets == [type : TypesUsed \cup {""}, vals : Vals]
Empty == [type |-> "", vals |-> [k \in Keys |-> ""]]

VARIABLES user,    \* what the user said
          seen,    \* the sources taken so far, in order (a ghost)
          plane,   \* facts of the current plane
          acc,     \* facts of the planes finished
          result   \* << >> until all is known

vars == << user, seen, plane, acc, result >>

Init == user \in FactSets /\ seen = << >> /\ plane = Empty /\ acc = Empty /\ result = << >>

Source == /\ result = << >> /\ Len(seen) < MaxSources
          /\ \E s \in FactSets : /\ plane' = AddSource(plane, s)
                                 /\ seen' = Append(seen, s)
          /\ UNCHANGED << user, acc, result >>

EndPlane == /\ result = << >> /\ plane # Empty
            /\ acc' = AddSource(acc, plane)
            /\ plane' = Empty
            /\ UNCHANGED << user, seen, result >>

Finish == /\ result = << >> /\ plane = Empty
          /\ result' = << Complete(user, acc) >>
          /\ UNCHANGED << user, seen, plane, acc >>

Next == Source \/ EndPlane \/ Finish
Spec == Init /\ [][Next]_vars

Done == result # << >>
R == result[1]

Meaning == Done => R = Resolved(user, seen)
UserWins == Done => /\ user.type # "" => R.type = user.type
                    /\ \A k \in Keys : user.vals[k] # "" => R.vals[k] = user.vals[k]
(* Nothing is invented. *)
FromSomewhere == Done => \A k \in Keys :
    R.vals[k] \in {"", user.vals[k]} \cup { seen[j].vals[k] : j \in 1..Len(seen) }
(* The order of agreeing sources does not matter. *)
Perms(n) == { f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j }
OrderFree == Done /\ Agreeing(seen) =>
    \A f \in Perms(Len(seen)) : Resolved(user, [j \in 1..Len(seen) |-> seen[f[j]]]) = R
(* Floating point wins over integer. *)
FloatWins == Done /\ user.type = "" /\ (\E j \in 1..Len(seen) : Rank(seen[j].type) >= 5) => Rank(R.type) >= 5
=============================================================================
