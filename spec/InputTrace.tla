----------------------------- MODULE InputTrace -----------------------------
(***************************************************************************)
(* Input files and what became of them, against Input.tla (C03).           *)
(*   say  [sym, t, w, h]    a statement (w, h: size of an image)           *)
(*   end  [ok, message, made]   the run: status 0?  error message?  how    *)
(*                          many of the cfg.maps complete maps, and files  *)
(*                          of any kind (left), are there afterwards       *)
(* A file that follows the rules but asks for a map that cannot be made    *)
(* ends the run with an error as well.                                     *)
(***************************************************************************)
EXTENDS TraceKit, Input

Say == Ev.op = "say" /\ SayStatement(Ev.sym, Ev.t, [w |-> Ev.w, h |-> Ev.h])

End == /\ Ev.op = "end"
       /\ IF FileAccepted /\ FileMakeable
          THEN Ev.ok /\ Ev.made = Cfg.maps
          ELSE /\ ~Ev.ok /\ Ev.message
               /\ ~FileAccepted => Ev.left = 0
       /\ UNCHANGED ivars

Init == KitInit /\ InputStart
Next == More /\ (Say \/ End) /\ Consume
Spec == Init /\ [][Next]_<< sc, l, rest, env, sound, able >>
=============================================================================
