----------------------------- MODULE FileTrace -----------------------------
(***************************************************************************)
(* Recorded map files against MapFile.tla (C08 C09).  cfg: the request.    *)
(*   run    [ok]            status zero and a readable file                *)
(*   part   [...]           header of each part, in file order             *)
(*   plane  [marks]         distinct data of each plane, blanks aside      *)
(*   eof                    nothing follows                                *)
(***************************************************************************)
EXTENDS TraceKit, MapFile

VARIABLES part, plane

Run == /\ Ev.op = "run" /\ l = 0
       /\ Ev.ok = ~Undetermined(Cfg)
       /\ UNCHANGED << part, plane >>
       /\ Consume
Part == /\ Ev.op = "part" /\ part < Parts(Cfg)
        /\ IF part = 0 THEN PrimaryRight(Cfg, Ev) ELSE GridRight(Cfg, Ev)
        /\ part' = part + 1
        /\ UNCHANGED plane
        /\ Consume
Plane == /\ Ev.op = "plane" /\ plane < Len(Cfg.planes)
         /\ Cfg.planes[plane + 1].mark = "" \/ Ev.marks = << Cfg.planes[plane + 1].mark >>
         /\ plane' = plane + 1
         /\ UNCHANGED part
         /\ Consume
Eof == /\ Ev.op = "eof" /\ part = Parts(Cfg) /\ plane = Len(Cfg.planes)
       /\ UNCHANGED << part, plane >>
       /\ Consume

Init == KitInit /\ part = 0 /\ plane = 0
Next == More /\ (Run \/ Part \/ Plane \/ Eof)
Spec == Init /\ [][Next]_<< sc, l, part, plane >>
=============================================================================
