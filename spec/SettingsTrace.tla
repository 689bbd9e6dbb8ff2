--------------------------- MODULE SettingsTrace ---------------------------
(***************************************************************************)
(* Recorded runs against Settings.tla (C02 C21).  The events of a run are  *)
(* the lines of the configuration and input files followed by what the map *)
(* files hold:                                                             *)
(*   run                                                                   *)
(*   config   [k, v]                                                       *)
(*   map, plane, image                                                     *)
(*   set      [k, v]                                                       *)
(*   made     [n, print]    digest of the n-th map file, dates aside       *)
(*   pixels   [n, j, print] digest of the pixels of its j-th plane         *)
(***************************************************************************)
EXTENDS TraceKit, Settings

Step == \/ Ev.op = "run" /\ NewRun
        \/ Ev.op = "config" /\ Configure(Ev.k, Ev.v)
        \/ Ev.op = "map" /\ StartMap
        \/ Ev.op = "plane" /\ StartPlane
        \/ Ev.op = "image" /\ StartImage
        \/ Ev.op = "set" /\ Setting(Ev.k, Ev.v)
        \/ Ev.op = "made" /\ MapMade(Ev.n, Ev.print)
        \/ Ev.op = "pixels" /\ PlaneMade(Ev.n, Ev.j, Ev.print)

Init == KitInit /\ conf = Nothing /\ maps = << >> /\ known = {}
Next == More /\ Step /\ Consume
Spec == Init /\ [][Next]_<< sc, l, conf, maps, known >>
=============================================================================
