---------------------------- MODULE RangesTrace ----------------------------
(* Calls on ranges, angles and scales recorded one by one, against         *)
(* Ranges.tla (C29).  Every call on a range is followed by what the range  *)
(* then says of itself.                                                    *)
EXTENDS TraceKit, Ranges

VARIABLE reg        \* the ranges by name

At(a) == reg[a]
(* What range a says of itself, e, is true of r. *)
Says(e, r) == /\ SameR(e, r) /\ e.valid = Valid(r)
              /\ \A i \in DOMAIN e.probe : InRangeOK(r, e.probe[i].v, e.probe[i].yes)
Now(r) == reg' = [reg EXCEPT ![Ev.a] = [lo |-> r.lo, hi |-> r.hi]]
Keep == reg' = reg

Give == Ev.op = "give" /\ Ev.ok /\ \E r \in {WithDatum(At(Ev.a), Ev.x)} : Says(Ev.now, r) /\ Now(r)
Join == Ev.op = "join" /\ Ev.ok /\ \E r \in {Merged(At(Ev.a), At(Ev.b))} : Says(Ev.now, r) /\ Now(r)
Make == /\ Ev.op = "make"
        /\ MustRefuse(Ev.x, Ev.y) => ~Ev.ok
        /\ MustMake(Ev.x, Ev.y) => Ev.ok
        /\ IF Ev.ok THEN MadeOK(Ev.t, Ev.x, Ev.y, Ev.now) /\ Says(Ev.now, Ev.now) /\ Now(Ev.now)
           ELSE Says(Ev.now, At(Ev.a)) /\ Keep
SetLo == /\ Ev.op = "setlo" /\ Ev.ok = ~RIsNaN(Ev.x)
         /\ IF Ev.ok THEN Ev.now.lo # <<>> /\ Into(Ev.t, Ev.x, Ev.now.lo[1]) /\ SameB(Ev.now.hi, At(Ev.a).hi) /\ Says(Ev.now, Ev.now) /\ Now(Ev.now)
            ELSE Says(Ev.now, At(Ev.a)) /\ Keep
SetHi == /\ Ev.op = "sethi" /\ Ev.ok = ~RIsNaN(Ev.x)
         /\ IF Ev.ok THEN Ev.now.hi # <<>> /\ Into(Ev.t, Ev.x, Ev.now.hi[1]) /\ SameB(Ev.now.lo, At(Ev.a).lo) /\ Says(Ev.now, Ev.now) /\ Now(Ev.now)
            ELSE Says(Ev.now, At(Ev.a)) /\ Keep
Forget == Ev.op = "reset" /\ Ev.ok /\ Says(Ev.now, Unset) /\ Now(Unset)
Copy == Ev.op = "copy" /\ Ev.ok /\ \E r \in {At(Ev.b)} : Says(Ev.now, r) /\ Says(Ev.other, r) /\ Now(r)
Exchange == /\ Ev.op = "swap" /\ Ev.ok
            /\ \E r \in {At(Ev.b)}, s \in {At(Ev.a)} :
                  /\ Says(Ev.now, r) /\ Says(Ev.other, s)
                  /\ reg' = [reg EXCEPT ![Ev.a] = r, ![Ev.b] = s]
Carry == /\ Ev.op = "carry" /\ Ev.ok
         /\ \E s \in {At(Ev.b)} : ConvertedOK(Ev.t, s, Ev.now) /\ Says(Ev.now, Ev.now) /\ Says(Ev.other, s) /\ Now(Ev.now)

RECURSIVE Shown(_, _)
Shown(r, xs) == IF xs = <<>> THEN r ELSE Shown(WithDatum(r, Head(xs)), Tail(xs))
(* What is known of a map being plotted: its size, its blank and its data. *)
Plot == /\ Ev.op = "plot" /\ Keep
        /\ \E r \in {Shown(Unset, Ev.xs)} : SameR(Ev.now, r) /\ Ev.mapped = (Ev.xs # <<>>)
        /\ Ev.count = Len(Ev.xs) /\ Ev.size = Ev.asked
        /\ Ev.blank = (IF Ev.kind = "whole" THEN << Ev.want >> ELSE <<>>)
Angle == Ev.op = "angle" /\ Keep /\ AngleOK(Ev.k, Ev.x, Ev.ok, Ev.r)
Empty == Ev.op = "empty" /\ Keep /\ EmptyOK(Ev.t, Ev.x)
Scale == Ev.op = "scale" /\ Keep /\ ScaleOK(Ev.t, Ev.x, Ev.y, Ev.ok, Ev.s, Ev.o)

Init == KitInit /\ reg = [a \in {Cfg.names[i] : i \in DOMAIN Cfg.names} |-> Unset]
Next == /\ More
        /\ Give \/ Join \/ Make \/ SetLo \/ SetHi \/ Forget \/ Copy \/ Exchange \/ Carry \/ Plot \/ Angle \/ Empty \/ Scale
        /\ Consume
Spec == Init /\ [][Next]_<< sc, l, reg >>
=============================================================================
