--------------------------- MODULE ProgressTrace ---------------------------
(* Recorded notifications and console output against Progress.tla (C19). *)
EXTENDS TraceKit, Progress

VARIABLES size,   \* of the map being made
          obs,    \* observer -> state
          pct,    \* observer (consoles) -> percentage shown
          n       \* planes made / lines seen

vars == <<sc, l, size, obs, pct, n>>

Init == KitInit /\ size = 0 /\ obs = <<>> /\ pct = <<>> /\ n = 0

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Subscribe == /\ Ev.op = "subscribe"
             /\ obs' = With(obs, Ev.obs, NewObserver)
             /\ pct' = With(pct, Ev.obs, 0)
             /\ UNCHANGED <<size, n>> /\ Consume

Plane == /\ Ev.op = "plane" /\ size' = Ev.size
         /\ obs' = [o \in DOMAIN obs |-> NewObserver]
         /\ UNCHANGED <<pct, n>> /\ Consume

Shown(o, count) ==
    IF Ev.console
    THEN \E p \in Percents(size, count) :
            /\ Ev.text = Marks(pct[o], Max(pct[o], p))
            /\ pct' = [pct EXCEPT ![o] = Max(pct[o], p)]
    ELSE UNCHANGED pct

Told == /\ Ev.op = "told" /\ Ev.obs \in DOMAIN obs
        /\ \/ /\ Plotted(obs[Ev.obs], size, Ev.size, Ev.count)
              /\ obs' = [obs EXCEPT ![Ev.obs].n = @ + 1]
           \/ /\ Completed(obs[Ev.obs], size, Ev.size, Ev.count)
              /\ obs' = [obs EXCEPT ![Ev.obs].ph = "complete"]
        /\ Shown(Ev.obs, Ev.count)
        /\ UNCHANGED <<size, n>> /\ Consume

(* Told of a run of pixels, nothing being shown meanwhile. *)
ToldRun == /\ Ev.op = "toldrun" /\ Ev.obs \in DOMAIN obs
           /\ PlottedAll(obs[Ev.obs], size, Ev.size, Ev.from, Ev.count)
           /\ obs' = [obs EXCEPT ![Ev.obs].n = Ev.count]
           /\ Shown(Ev.obs, Ev.count)
           /\ UNCHANGED <<size, n>> /\ Consume

Reset == /\ Ev.op = "reset" /\ Ev.obs \in DOMAIN obs
         /\ obs[Ev.obs].ph = "complete"
         /\ obs' = [obs EXCEPT ![Ev.obs].ph = "idle"]
         /\ pct' = [pct EXCEPT ![Ev.obs] = 0]
         /\ UNCHANGED <<size, n>> /\ Consume

(* The plane was made; body pixels of it show the body. *)
Made == /\ Ev.op = "made"
        /\ \A o \in DOMAIN obs : Finished(obs[o], Ev.body)
        /\ n' = n + 1 /\ UNCHANGED <<size, obs, pct>> /\ Consume

(* A console told of growing counts with gaps. *)
Gap == /\ Ev.op = "gap" /\ Ev.obs \in DOMAIN obs
       /\ \E p \in Percents(Ev.size, Ev.count) :
             /\ Ev.text = Marks(pct[Ev.obs], Max(pct[Ev.obs], p))
             /\ pct' = [pct EXCEPT ![Ev.obs] = IF Ev.again THEN 0 ELSE Max(pct[Ev.obs], p)]
       /\ UNCHANGED <<size, obs, n>> /\ Consume

(* The program's report of a plane of a map. *)
Report == /\ Ev.op = "report"
          /\ Ev.text = PlaneLine(n + 1, Cfg.planes[Ev.map])
          /\ n' = IF n + 1 = Cfg.planes[Ev.map] THEN 0 ELSE n + 1
          /\ UNCHANGED <<size, obs, pct>> /\ Consume

(* The end of the program's output: every map was created, n is 0 again. *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
End == /\ Ev.op = "end" /\ Ev.ok /\ n = 0
       /\ Ev.maps = Len(Cfg.planes) /\ Ev.hundreds = Sum(Cfg.planes)
       /\ UNCHANGED <<size, obs, pct, n>> /\ Consume

Next == More /\ (Subscribe \/ Plane \/ Told \/ ToldRun \/ Reset \/ Made \/ Gap \/ Report \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
