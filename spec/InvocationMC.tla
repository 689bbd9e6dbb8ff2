---------------------------- MODULE InvocationMC ----------------------------
(* Every command line of up to Most arguments in every environment.        *)
EXTENDS Invocation

CONSTANT Most

Args == { [k |-> "help", t |-> "--help"], [k |-> "version", t |-> "-V"], [k |-> "bad", t |-> "-x"],
          [k |-> "dashes", t |-> "--"], [k |-> "name", t |-> "a"], [k |-> "name", t |-> "b"], [k |-> "name", t |-> "c"] }
Inputs == << [name |-> "a", out |-> "m", id |-> "1"], [name |-> "b", out |-> "m", id |-> "2"],
             [name |-> "-x", out |-> "n", id |-> "3"], [name |-> "--", out |-> "n", id |-> "4"] >>
Requests == [args : UNION { [1..n -> Args] : n \in 0..Most }, inputs : { Inputs }, xdg : {"unset", "empty", "set"},
             home : {"unset", "set"}, confs : [xdg : {0, 1, Spoiled}, home : {0, 2, Spoiled}, old : {0, 3}], outs : { << "m", "n" >> }]

Init == \E r \in Requests : InvocationStart(r)
Next == INext
Spec == Init /\ [][Next]_ivars
(* Every request has an outcome, and only one. *)
Ends == ~Done => ENABLED Next
=============================================================================
