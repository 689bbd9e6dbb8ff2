------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* One run of the program over the disk (C01 C22).                         *)
(*                                                                         *)
(* A request has                                                           *)
(*   config   "none", "good" or "bad": the user configuration file         *)
(*   inputs   sequence of [state, maps]; state "good", "bad" (refused) or  *)
(*            "missing"; maps the sequence of map entries, [id, name,      *)
(*            able]: able is FALSE for a map that cannot be made           *)
(*   disk     what is on the disk before the run, by name: "" (nothing) or *)
(*            an identification of the content                             *)
(* Writing to the disk may fail at any moment (Fault).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES req,      \* the request
          phase,    \* "config" "inputs" "maps" "over"
          taken,    \* number of inputs accepted so far
          queue,    \* maps still to be made, in order
          disk,     \* content by name
          failures  \* maps that could not be made, and refusals

svars == << req, phase, taken, queue, disk, failures >>

Partial == "partial"    \* whatever a failed map leaves behind

AllMaps(r) == [j \in 1..Len(r.inputs) |-> r.inputs[j].maps]
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))

Acceptable(r) == /\ r.config # "bad"
                 /\ \A j \in 1..Len(r.inputs) : r.inputs[j].state = "good"
Doable(r) == \A j \in 1..Len(r.inputs) : \A k \in 1..Len(r.inputs[j].maps) : r.inputs[j].maps[k].able

SessionStart(r) == /\ req = r /\ phase = "config" /\ taken = 0 /\ queue = << >>
                   /\ disk = r.disk /\ failures = 0

ReadConfig == /\ phase = "config" /\ req.config # "bad"
              /\ phase' = "inputs"
              /\ UNCHANGED << req, taken, queue, disk, failures >>

ReadInput == /\ phase = "inputs" /\ taken < Len(req.inputs)
             /\ req.inputs[taken + 1].state = "good"
             /\ taken' = taken + 1
             /\ queue' = queue \o req.inputs[taken + 1].maps
             /\ UNCHANGED << req, phase, disk, failures >>

StartMaps == /\ phase = "inputs" /\ taken = Len(req.inputs)
             /\ phase' = "maps"
             /\ UNCHANGED << req, taken, queue, disk, failures >>

(* An input that asks for a map that cannot be made may be refused as well. *)
Refuse == /\ phase \in {"config", "inputs"}
          /\ ~Acceptable(req) \/ ~Doable(req)
          /\ phase' = "over"
          /\ failures' = failures + 1
          /\ UNCHANGED << req, taken, queue, disk >>

Current == Head(queue)

MakeMap == /\ phase = "maps" /\ queue # << >> /\ Current.able
           /\ disk' = [disk EXCEPT ![Current.name] = Current.id]
           /\ queue' = Tail(queue)
           /\ UNCHANGED << req, phase, taken, failures >>

FailMap == /\ phase = "maps" /\ queue # << >>
           /\ \E left \in {disk[Current.name], "", Partial} : disk' = [disk EXCEPT ![Current.name] = left]
           /\ failures' = failures + 1
           /\ queue' = Tail(queue)
           /\ UNCHANGED << req, phase, taken >>

(* A map that cannot be made. *)
Impossible == queue # << >> /\ ~Current.able /\ FailMap
(* The disk lets us down. *)
Fault == queue # << >> /\ Current.able /\ FailMap

Finish == /\ phase = "maps" /\ queue = << >>
          /\ phase' = "over"
          /\ UNCHANGED << req, taken, queue, disk, failures >>
(* After a failure the rest may be given up. *)
GiveUp == /\ phase = "maps" /\ failures > 0
          /\ phase' = "over"
          /\ UNCHANGED << req, taken, queue, disk, failures >>

Over == phase = "over"
Status == failures = 0    \* zero exit status

---------------------------------------------------------------------------
(* The properties, as invariants of the model. *)
RECURSIVE LastOf(_, _)
LastOf(ms, n) == IF ms = << >> THEN ""
                 ELSE IF ms[Len(ms)].name = n THEN ms[Len(ms)].id
                 ELSE LastOf(SubSeq(ms, 1, Len(ms) - 1), n)

NothingBeforeAccepted == phase \in {"config", "inputs"} => disk = req.disk
NothingIfRefused == Over /\ ~Acceptable(req) => disk = req.disk /\ ~Status
LastWins == Over /\ Status =>
    \A n \in DOMAIN disk : LET i == LastOf(Flat(AllMaps(req)), n)
                           IN disk[n] = IF i = "" THEN req.disk[n] ELSE i
StatusTells == Over /\ Status => Acceptable(req) /\ Doable(req)
Untouched == \A n \in DOMAIN disk : LastOf(Flat(AllMaps(req)), n) = "" => disk[n] = req.disk[n]
Known == \A n \in DOMAIN disk : disk[n] \in {req.disk[n], "", Partial} \cup
            { Flat(AllMaps(req))[j].id : j \in 1..Len(Flat(AllMaps(req))) }
=============================================================================
