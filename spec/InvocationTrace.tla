-------------------------- MODULE InvocationTrace --------------------------
(***************************************************************************)
(* Recorded runs of the program against Invocation.tla (C24).              *)
(*   exit [ok, told]      status zero; the user was told of an error       *)
(*   show [what]          "" "version" or "usage", on standard output      *)
(*   map [name, id, conf] what is under a map's name; id "" for nothing    *)
(***************************************************************************)
EXTENDS TraceKit, Invocation

Silent == More /\ INext /\ UNCHANGED << sc, l >>
Exit == /\ Ev.op = "exit" /\ Done
        /\ Ev.ok = (outcome = "well")
        /\ Ev.ok \/ Ev.told
        /\ UNCHANGED ivars /\ Consume
Show == /\ Ev.op = "show" /\ Done
        /\ Ev.what = shown
        /\ UNCHANGED ivars /\ Consume
Map == /\ Ev.op = "map" /\ Done
       /\ Ev.name \in DOMAIN made
       /\ Ev.id = made[Ev.name].id
       /\ Ev.id # "" => Ev.conf = made[Ev.name].conf
       /\ UNCHANGED ivars /\ Consume

Init == KitInit /\ InvocationStart(Cfg)
Next == Silent \/ (More /\ (Exit \/ Show \/ Map))
Spec == Init /\ [][Next]_<< sc, l, ivars >>
=============================================================================
