----------------------------- MODULE GridTrace -----------------------------
(***************************************************************************)
(* Recorded grids against Grid.tla (C18).                                  *)
(*                                                                         *)
(* cfg: [proj, body, p, latIv, lonIv]; events:                             *)
(*   grid  [ok, samples, lines, others]  the program ended, size of the    *)
(*         grid, number of pixels that are neither 0 nor 255               *)
(*   white [k, i, w]   a drawn pixel and a witness: a point [lat, lon] of  *)
(*         the j-th line of kind [what, fam] that passes there             *)
(*   probe [k, i, what, fam, j, lat, lon, white]  a point of a line asked  *)
(*         for that lies in pixel (k, i) of the map's interior; white: the *)
(*         drawn pixels around; beside: points of the same line in the     *)
(*         rows or columns (along) before and after                        *)
(***************************************************************************)
EXTENDS TraceKit, Grid

VARIABLE fam    \* how meridians are counted

Tol == "0.00001"

(* (lat, lon) is on the j-th line. *)
OnLine(what, j, lat, lon) ==
    IF what = "lat"
    THEN /\ ParallelAsked(Cfg.latIv, j)
         /\ Near(KindOfLat(Cfg.proj, Cfg.body, Cfg.p, lat), Parallel(Cfg.latIv, j), Tol)
    ELSE /\ MeridianAsked(Cfg.lonIv, fam, j)
         /\ NearMod(lon, Meridian(Cfg.lonIv, fam, j), 360, Tol)

Off(k, i, lat, lon) == Offset(Cfg.proj, Cfg.body, Cfg.p, k, i, lat, lon)
Faces(lat, lon, least) == RLe(least, Facing(Cfg.proj, Cfg.body, Cfg.p, lat, lon))

MustRefuse ==
    /\ Cfg.proj = "ortho" /\ Cfg.p.centre = "latlon"
    /\ ~OrthoCentreVisible(Cfg.body, Cfg.p)

Refused == Ev.op = "grid" /\ ~Ev.ok /\ MustRefuse /\ Consume
Made == /\ Ev.op = "grid"
        /\ Ev.ok /\ Ev.samples = Cfg.p.samples /\ Ev.lines = Cfg.p.lines /\ Ev.others = 0
        /\ Consume

(* No further from the centre of a pixel than the centre of a neighbour. *)
Touches(off) == RLe(RHypot(off[1], off[2]), "1.4153")

(* Every drawn pixel is within a pixel of a line asked for. *)
White == /\ Ev.op = "white"
         /\ \E n \in 1..Len(Ev.w) :
               LET w == Ev.w[n]
               IN /\ w.what = "lat" \/ w.fam = fam
                  /\ OnLine(w.what, w.j, w.lat, w.lon)
                  /\ Faces(w.lat, w.lon, "-0.001")
                  /\ Touches(Off(Ev.k, Ev.i, w.lat, w.lon))
         /\ Consume

(* Every line asked for is drawn where it crosses the interior of the map. *)
Applies == /\ Ev.what = "lat" \/ Ev.fam = fam
           /\ Ev.k \in 1..(Cfg.p.lines - 2) /\ Ev.i \in 1..(Cfg.p.samples - 2)
           /\ OnLine(Ev.what, Ev.j, Ev.lat, Ev.lon)
           /\ Faces(Ev.lat, Ev.lon, "0.05")
           /\ Within(Off(Ev.k, Ev.i, Ev.lat, Ev.lon), "0.5")
(* The line runs through the rows (columns) before and after this one: then *)
(* it is drawn in this one, too.                                            *)
Next1(q, least, most) ==
    \E o \in {Off(Ev.k, Ev.i, q[1], q[2])} :
       \E d \in {IF Ev.along = "row" THEN o[2] ELSE o[1]}, e \in {IF Ev.along = "row" THEN o[1] ELSE o[2]} :
          RLe(least, d) /\ RLe(d, most) /\ RLe(RAbs(e), "1.5")
Through == /\ Len(Ev.beside) = 2
           /\ \A n \in 1..2 : OnLine(Ev.what, Ev.j, Ev.beside[n][1], Ev.beside[n][2]) /\ Faces(Ev.beside[n][1], Ev.beside[n][2], "0.05")
           /\ \E n \in 1..2 : Next1(Ev.beside[n], "-1.5", "-0.5") /\ Next1(Ev.beside[3 - n], "0.5", "1.5")
Probe == /\ Ev.op = "probe"
         /\ \/ ~Applies
            \/ \E t \in {Through}, n \in 1..Len(Ev.white) :
                  /\ Touches(Off(Ev.white[n][1], Ev.white[n][2], Ev.lat, Ev.lon))
                  /\ t => IF Ev.along = "row" THEN Ev.white[n][1] = Ev.k ELSE Ev.white[n][2] = Ev.i
         /\ Consume

Init == KitInit /\ fam \in {"up", "down"}
Next == More /\ (Made \/ Refused \/ White \/ Probe) /\ UNCHANGED fam
Spec == Init /\ [][Next]_<<sc, l, fam>>
=============================================================================
