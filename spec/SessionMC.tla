----------------------------- MODULE SessionMC -----------------------------
(* Every run over two names, up to two inputs of up to two maps each.      *)
EXTENDS Session

CONSTANTS Names, MaxInputs, MaxMaps

Ids == << "a", "b", "c", "d" >>
MapsOf(k, n) == { [j \in 1..n |-> [id |-> Ids[MaxMaps * (k - 1) + j], name |-> nm[j], able |-> ab[j]]] :
                  nm \in [1..n -> Names], ab \in [1..n -> BOOLEAN] }
InputsAt(k) == { [state |-> s, maps |-> m] : s \in {"good", "bad", "missing"}, m \in UNION { MapsOf(k, n) : n \in 1..MaxMaps } }
InputSeqs == { << i >> : i \in InputsAt(1) } \cup (IF MaxInputs < 2 THEN {} ELSE InputsAt(1) \X InputsAt(2))
Requests == [config : {"none", "good", "bad"}, inputs : InputSeqs, disk : [Names -> {"", "old"}]]

Init == \E r \in Requests : SessionStart(r)
Next == ReadConfig \/ ReadInput \/ StartMaps \/ Refuse \/ MakeMap \/ Impossible \/ Fault \/ Finish \/ GiveUp
Spec == Init /\ [][Next]_svars

(* Every run comes to an end, and an accepted, doable request on a sound
   disk can end well. *)
Ends == phase # "over" => ENABLED Next
=============================================================================
