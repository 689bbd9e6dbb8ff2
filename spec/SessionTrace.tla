---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Recorded runs of the program against Session.tla (C01 C22).             *)
(*   touch  [name]        a map's name was created, replaced, removed      *)
(*   fault  [name]        writing a part of it was made to fail            *)
(*   exit   [ok, told]    status zero; an error message was printed        *)
(*   disk   [name, is]    what the name holds afterwards                   *)
(*   rest   [touched]     other files made, changed or removed             *)
(* Steps that leave no mark are taken silently between the events.  Where  *)
(* cfg.fragile is TRUE writes may fail without being recorded.             *)
(***************************************************************************)
EXTENDS TraceKit, Session

VARIABLES faulty,   \* a write of the current map failed
          ended

Silent == /\ More /\ ~ended
          /\ \/ ReadConfig \/ ReadInput \/ StartMaps \/ Refuse \/ Impossible \/ Finish \/ GiveUp
             \/ (MakeMap /\ ~faulty)
             \/ ((faulty \/ Cfg.fragile) /\ Fault)
          /\ faulty' = (faulty /\ queue' = queue)
          /\ UNCHANGED << ended, sc, l >>

Touch == /\ Ev.op = "touch" /\ phase = "maps" /\ queue # << >> /\ Current.name = Ev.name
         /\ UNCHANGED << req, phase, taken, queue, disk, failures, faulty, ended >>
         /\ Consume
FaultSeen == /\ Ev.op = "fault" /\ phase = "maps" /\ queue # << >> /\ Current.name = Ev.name
             /\ faulty' = TRUE
             /\ UNCHANGED << req, phase, taken, queue, disk, failures, ended >>
             /\ Consume
Exit == /\ Ev.op = "exit" /\ Over /\ ~ended
        /\ Ev.ok = Status
        /\ Ev.ok \/ Ev.told
        /\ ended' = TRUE
        /\ UNCHANGED << req, phase, taken, queue, disk, failures, faulty >>
        /\ Consume
Disk == /\ Ev.op = "disk" /\ ended
        /\ Ev.name \in DOMAIN disk
        \* what a failed map leaves behind is its own affair
        /\ Ev.is = disk[Ev.name] \/ disk[Ev.name] = Partial
        /\ UNCHANGED << req, phase, taken, queue, disk, failures, faulty, ended >>
        /\ Consume

(* The run works on the maps it was asked for and on nothing else. *)
Rest == /\ Ev.op = "rest" /\ ended
        /\ Ev.touched = << >>
        /\ UNCHANGED << req, phase, taken, queue, disk, failures, faulty, ended >>
        /\ Consume

Init == KitInit /\ SessionStart(Cfg) /\ faulty = FALSE /\ ended = FALSE
Next == Silent \/ (More /\ (Touch \/ FaultSeen \/ Exit \/ Disk \/ Rest))
Spec == Init /\ [][Next]_<< sc, l, req, phase, taken, queue, disk, failures, faulty, ended >>
=============================================================================
