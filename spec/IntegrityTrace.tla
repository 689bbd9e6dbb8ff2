--------------------------- MODULE IntegrityTrace ---------------------------
(***************************************************************************)
(* Recorded runs of the program over source files that store checksums.    *)
(* cfg.units holds the first unit of each source by name.  Events:         *)
(*   said [name, warned, sums]  warned: a warning or an error names the    *)
(*                        file; sums: one that speaks of checksums does    *)
(*   exit [ok, same]      status zero; the map equals the one made from    *)
(*                        the same images without stored sums              *)
(***************************************************************************)
EXTENDS TraceKit, Integrity

VARIABLE heard

Said == /\ Ev.op = "said"
        /\ \E k \in 1..Len(Cfg.units) :
              /\ Cfg.units[k].name = Ev.name
              /\ IF Spoiled(Cfg.units[k]) THEN Ev.warned ELSE ~Ev.sums
        /\ heard' = heard \cup {Ev.name}
        /\ Consume
Exit == /\ Ev.op = "exit"
        /\ heard = { Cfg.units[k].name : k \in 1..Len(Cfg.units) }
        /\ Ev.ok /\ Ev.same
        /\ UNCHANGED heard
        /\ Consume

Init == KitInit /\ heard = {}
Next == More /\ (Said \/ Exit)
Spec == Init /\ [][Next]_<< sc, l, heard >>
=============================================================================
