----------------------------- MODULE ProgressMC -----------------------------
(***************************************************************************)
(* All ways of making up to Planes planes of a map of any size up to Size, *)
(* of which any number of pixels show the body, with a console subscribed  *)
(* from the start and another observer subscribed before any plane.        *)
(***************************************************************************)
EXTENDS Progress

CONSTANTS Size, Planes

VARIABLES size, body,    \* the map
          plotted,       \* pixels of the plane plotted so far
          plane,         \* planes finished
          subs,          \* subscribed observers
          obs,           \* their state
          told,          \* what the second observer was told in this plane
          pct, line,     \* console: percentage, line so far
          lines          \* console: lines finished

vars == <<size, body, plotted, plane, subs, obs, told, pct, line, lines>>
Console == "console"

Init == /\ size \in 1..Size /\ body \in 0..size
        /\ plotted = 0 /\ plane = 0 /\ subs = {Console}
        /\ obs = [o \in {Console, "other"} |-> NewObserver]
        /\ told = <<>> /\ pct = 0 /\ line = "" /\ lines = <<>>

Subscribe == /\ plotted = 0 /\ "other" \notin subs
             /\ subs' = subs \cup {"other"}
             /\ UNCHANGED <<size, body, plotted, plane, obs, told, pct, line, lines>>

Show(count) == \E p \in Percents(size, count) :
                  /\ line' = line \o Marks(pct, Max(pct, p))
                  /\ pct' = Max(pct, p)

Plot == /\ plane < Planes /\ plotted < body
        /\ plotted' = plotted + 1
        /\ obs' = [o \in DOMAIN obs |-> IF o \in subs THEN [obs[o] EXCEPT !.n = @ + 1] ELSE obs[o]]
        /\ \A o \in subs : Plotted(obs[o], size, size, plotted + 1)
        /\ told' = IF "other" \in subs THEN Append(told, plotted + 1) ELSE told
        /\ Show(plotted + 1)
        /\ UNCHANGED <<size, body, plane, subs, lines>>

Done == /\ plane < Planes /\ plotted = body
        /\ \A o \in subs : Completed(obs[o], size, size, size)
        /\ plane' = plane + 1 /\ plotted' = 0
        /\ \E p \in Percents(size, size) :
              lines' = Append(lines, line \o Marks(pct, Max(pct, p)))
        /\ pct' = 0 /\ line' = ""
        /\ obs' = [o \in DOMAIN obs |-> NewObserver]
        /\ told' = <<>>
        /\ body' \in 0..size
        /\ UNCHANGED <<size, subs>>

Next == Subscribe \/ Plot \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Plot \/ Done)

(* The line shown grows towards the complete line and is complete at the end. *)
Growing == line = Marks(0, pct)
Complete == \A i \in 1..Len(lines) : lines[i] = Line
OnePerPlane == Len(lines) = plane
CountedOnce == "other" \in subs => told = [i \in 1..obs["other"].n |-> i] /\ obs["other"].n = plotted
NeverFull == pct = 100 => plotted = size
AllMade == <>(plane = Planes)
=============================================================================
