--------------------------- MODULE RootFindTrace ---------------------------
(* Recorded calls of the bracketing root finder against RootFind.tla (C20). *)
EXTENDS TraceKit, RootFind

Call == /\ Ev.op = "solve"
        /\ AnswerOK(Ev.q, Ev.ans, Ev.x)
        /\ Consume

Init == KitInit
Next == More /\ Call
Spec == Init /\ [][Next]_<<sc, l>>
=============================================================================
