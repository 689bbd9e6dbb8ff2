----------------------------- MODULE GrammarMC -----------------------------
(***************************************************************************)
(* All positions of the grammar of input files, each with a shortest way   *)
(* to it, printed for replay into the program (checks/inputs.py): what may *)
(* follow and whether the input may end there.                             *)
(***************************************************************************)
EXTENDS Grammar, FiniteSets, TLC, TLCExt, Json

VARIABLES rest,     \* what may still follow
          said,     \* the statements so far
          maps      \* number of entries, at most two

Init == rest = {InputFile} /\ said = << >> /\ maps = 0

Say(k) == /\ k = "MAP" => maps < 2
          /\ rest' = FollowAll(rest, k)
          /\ said' = Append(said, k)
          /\ maps' = IF k = "MAP" THEN maps + 1 ELSE maps

Next == \E k \in FirstAll(rest) : Say(k)
View == << rest, maps >>

(* Something acceptable can always be said or the input may end.  *)
Alive == FirstAll(rest) # {} \/ DoneAll(rest)
(* FirstAll is exactly what FollowAll lets through. *)
Sound == \A k \in FirstAll(rest) : FollowAll(rest, k) # {}

Positions == [ id |-> TLCFP(View), maps |-> maps, said |-> said, done |-> DoneAll(rest),
               next |-> { [k |-> k, to |-> TLCFP(<< FollowAll(rest, k), IF k = "MAP" THEN maps + 1 ELSE maps >>)] : k \in FirstAll(rest) } ]
Note == PrintT("POS " \o ToJson(Positions))
=============================================================================
