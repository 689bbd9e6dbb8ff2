---------------------------- MODULE LocateTrace ----------------------------
(***************************************************************************)
(* Runs over input files with a statement out of place (C26).              *)
(*   file [name, before]   a file; lines of the one before it              *)
(*   say [sym, line]       a statement                                     *)
(*   end [lines, ok, places]   the run; places: << file, line >> of every  *)
(*                         place an error message points at                *)
(***************************************************************************)
EXTENDS TraceKit, Locate

Open == Ev.op = "file" /\ OpenFile(Ev.name, Ev.before)
Say == Ev.op = "say" /\ Statement(Ev.sym, Ev.line)
Close == /\ Ev.op = "end"
         /\ stop' = Ended(Ev.lines)
         /\ IF stop' = << >> THEN Ev.places = << >>
            ELSE /\ ~Ev.ok
                 /\ Ev.places # << >>
                 /\ \A j \in 1..Len(Ev.places) :
                       /\ Ev.places[j][1] = stop'[1]
                       /\ Ev.places[j][2] >= stop'[2] /\ Ev.places[j][2] <= stop'[3]
         /\ UNCHANGED << reading, rest >>

Init == KitInit /\ LocateStart
Next == More /\ (Open \/ Say \/ Close) /\ Consume
Spec == Init /\ [][Next]_<< sc, l, reading, rest, stop >>
=============================================================================
