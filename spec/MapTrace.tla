------------------------------ MODULE MapTrace ------------------------------
(***************************************************************************)
(* Recorded maps against MapMaking.tla (C05 C06 C07 C10 C11 C12 C13).      *)
(*                                                                         *)
(* cfg: [body, type, blank, planes, refuse]; events in order:              *)
(*   open   [ok, rows]    run ended; ok: status 0 and the map is readable  *)
(*   row    [lat, lon, val]  a line of the current plane: where its pixels *)
(*                        are ("NaN": off the body) and what they hold     *)
(*   plane  [warned, encs]  end of a plane: was the user warned that it is *)
(*                        empty; scale and zero point recorded for it      *)
(*   end    [datamin, datamax]   recorded facts ("" : absent)              *)
(* cfg.refuse: the request must be refused, nothing else may follow.       *)
(***************************************************************************)
EXTENDS TraceKit, MapMaking

VARIABLES pl,     \* number of the plane being filled
          mapped, \* number of its mapped pixels so far
          doubt,  \* << number of its doubtful pixels, any in the map >>
          ext,    \* extrema of the mapped pixels of all planes
          prep    \* prepared images of the current plane

Plane == Cfg.planes[pl]
Prepared(n) ==
    IF n <= Len(Cfg.planes) /\ Cfg.planes[n].kind = "images"
    THEN TLCEval([j \in 1..Len(Cfg.planes[n].imgs) |-> Prepare(Cfg.body, Cfg.planes[n].imgs[j])])
    ELSE << >>

(* The map's blank value: the user's, else the first a source file has. *)
RECURSIVE FirstBlank(_)
FirstBlank(ms) == IF ms = << >> THEN "" ELSE IF Head(ms).blank # "" THEN Head(ms).blank ELSE FirstBlank(Tail(ms))
RECURSIVE PlanesBlank(_)
PlanesBlank(ps) == IF ps = << >> THEN ""
                   ELSE LET x == FirstBlank(Head(ps).imgs) IN IF x # "" THEN x ELSE PlanesBlank(Tail(ps))
MapBlank == IF Cfg.blank # "" THEN Cfg.blank ELSE PlanesBlank(Cfg.planes)

MustRefuse == Cfg.refuse \/ \E j \in 1..Len(Cfg.planes) : CannotHold(Cfg.type, Cfg.planes[j])
Refusals ==    \* {TRUE}, {FALSE} or both
    IF MustRefuse THEN {TRUE}
    ELSE LET S == UNION { { Orientable(Cfg.planes[j].imgs[k]) : k \in 1..Len(Cfg.planes[j].imgs) } :
                            j \in 1..Len(Cfg.planes) }
         IN IF {FALSE} \in S THEN {TRUE} ELSE IF {TRUE, FALSE} \in S THEN {TRUE, FALSE} ELSE {FALSE}

Open == /\ Ev.op = "open" /\ l = 0
        /\ ~Ev.ok \in Refusals
        /\ prep' = (IF Ev.ok THEN Prepared(1) ELSE << >>)
        /\ UNCHANGED << pl, mapped, doubt, ext >>
        /\ Consume

(* Folding a line of pixels: << ok, mapped, ext >> *)
PixelStatus(j) ==
    IF RIsNaN(Ev.lat[j])
    THEN (IF SameValue(Ev.val[j], BlankOf(Cfg.type, MapBlank)) THEN "blank" ELSE "bad")
    ELSE Status(Cfg.type, MapBlank, Plane, Ev.enc,
                PlaneOutcomes(Cfg.body, Plane, prep, Ev.lat[j], Ev.lon[j]), Ev.val[j])

RECURSIVE Fold(_, _, _, _)
Fold(st, j, n, e) ==
    IF j > Len(st) THEN << n, e >>
    ELSE IF st[j] = "mapped" THEN Fold(st, j + 1, n + 1, Extend(e, Ev.val[j]))
    ELSE Fold(st, j + 1, n, e)

RowResult ==
    LET st == TLCEval([j \in 1..Len(Ev.val) |-> PixelStatus(j)])
    IN << \A j \in 1..Len(st) : st[j] # "bad",
          Fold(st, 1, mapped, ext),
          Cardinality({ j \in 1..Len(st) : st[j] = "either" }) >>

Row == /\ Ev.op = "row" /\ pl <= Len(Cfg.planes)
       /\ \E r \in { RowResult } :
             /\ r[1]
             /\ mapped' = r[2][1] /\ ext' = r[2][2]
             /\ doubt' = << doubt[1] + r[3], doubt[2] \/ r[3] > 0 >>
       /\ UNCHANGED << pl, prep >>
       /\ Consume

EndPlane == /\ Ev.op = "plane" /\ pl <= Len(Cfg.planes)
            /\ (mapped = 0 /\ doubt[1] > 0) \/ Ev.warned = (mapped = 0)
            /\ pl' = pl + 1 /\ mapped' = 0 /\ doubt' = << 0, doubt[2] >>
            /\ prep' = Prepared(pl + 1)
            /\ UNCHANGED ext
            /\ Consume

End == /\ Ev.op = "end" /\ pl = Len(Cfg.planes) + 1
       /\ \/ RecordedOK(Cfg.type, ext, Ev.datamin, Ev.datamax)
          \/ doubt[2] /\ RecordedOK(Cfg.type, Extend(ext, BlankOf(Cfg.type, MapBlank)), Ev.datamin, Ev.datamax)
       /\ UNCHANGED << pl, mapped, doubt, ext, prep >>
       /\ Consume

Init == KitInit /\ pl = 1 /\ mapped = 0 /\ doubt = << 0, FALSE >> /\ ext = NoExtrema /\ prep = << >>
Next == More /\ (Open \/ Row \/ EndPlane \/ End)
Spec == Init /\ [][Next]_<< sc, l, pl, mapped, doubt, ext, prep >>
=============================================================================
