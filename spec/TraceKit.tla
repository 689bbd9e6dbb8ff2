------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Common machinery for validating recorded executions of MaRC.            *)
(*                                                                         *)
(* The file named by the environment variable TRACE holds one scenario per *)
(* line: [id, cfg, ev].  cfg describes the request (what the user asked    *)
(* for), ev is the sequence of recorded events.  Each scenario is one      *)
(* initial state; a trace specification consumes its events one by one     *)
(* with a specification action per event.  A scenario is accepted iff some *)
(* behaviour consumes all of its events.  One TLC register per scenario    *)
(* holds the longest prefix consumed (so: run with one worker).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES sc,   \* number of the scenario
          l     \* number of events consumed

Scen == ndJsonDeserialize(IOEnv.TRACE)
Cfg == Scen[sc].cfg
Evs == Scen[sc].ev
Ev == Evs[l + 1]
More == l < Len(Evs)

KitInit == sc \in 1..Len(Scen) /\ l = 0

(* Consume the current event; conjoin this after the event was explained. *)
Consume == /\ l' = l + 1
           /\ UNCHANGED sc
           /\ (IF TLCGet(sc) < l + 1 THEN TLCSet(sc, l + 1) ELSE TRUE)

ASSUME \A i \in 1..Len(Scen) : TLCSet(i, 0)

Accepted ==
    /\ \A i \in 1..Len(Scen) :
          IF TLCGet(i) = Len(Scen[i].ev) /\ Len(Scen[i].ev) > 0 THEN TRUE
          ELSE PrintT(<<"REJECT", i, TLCGet(i)>>)
    /\ PrintT(<<"DONE", Len(Scen)>>)
=============================================================================
