----------------------------- MODULE RobustTrace ----------------------------
(* Recorded runs over damaged files: some behaviour of Robust.tla ends as   *)
(* the run did (C28).  A report of misused memory is explained by nothing.  *)
EXTENDS TraceKit, Robust

(* "?" stands for maps that left no file. *)
Names == {Cfg.names[j] : j \in 1..Len(Cfg.names)} \cup {"?"}
Silent == l = 0 /\ RobustNext /\ UNCHANGED <<sc, l>>
Exit == /\ Ev.op = "exit" /\ phase = "over"
        /\ Ev.ended
        /\ (Ev.status = 0) = ~failed
        /\ failed => Ev.message
        /\ disk["?"] = ""
        /\ UNCHANGED rvars /\ Consume
File == /\ Ev.op = "file" /\ l > 0
        /\ disk[Ev.name] = Ev.state
        /\ UNCHANGED rvars /\ Consume
Init == KitInit /\ RobustInit(Names)
Next == More /\ (Silent \/ Exit \/ File)
Spec == Init /\ [][Next]_<<sc, l, rvars>>
=============================================================================
