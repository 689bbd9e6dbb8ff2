----------------------------- MODULE ProjTrace -----------------------------
(***************************************************************************)
(* Recorded maps against Projections.tla (C14 to C17).                     *)
(*                                                                         *)
(* cfg: [proj, body, p, refuse]; events:                                   *)
(*   run  [ok]         the program ended; ok: status 0 and map complete    *)
(*   row  [k, i, lat, lon]  latitude and longitude planes, one line of     *)
(*                     pixels, from sample i on ("NaN": blank)             *)
(* A map the projection cannot make (refuse) must not be made.             *)
(***************************************************************************)
EXTENDS TraceKit, Projections

Tol == "0.0000001"

PixelOK(k, i, lat, lon) ==
    LET b == Cfg.body
        p == Cfg.p
    IN CASE Cfg.proj = "simple" -> SimpleOK(b, p, k, i, lat, lon, Tol)
         [] Cfg.proj = "mercator" -> MercatorOK(b, p, k, i, lat, lon, "0.000001")
         [] Cfg.proj = "polar" -> PolarOK(b, p, k, i, lat, lon, "0.000001")
         [] Cfg.proj = "ortho" ->
              IF RIsNaN(lat) /\ RIsNaN(lon) THEN OrthoBlankOK(b, p, k, i)
              ELSE OrthoOK(b, p, k, i, lat, lon, "0.00000001")

MustRefuse ==
    /\ Cfg.proj = "ortho" /\ Cfg.p.centre = "latlon"
    /\ ~OrthoCentreVisible(Cfg.body, Cfg.p)

(* Latitudes that double precision cannot tell from a pole may be refused. *)
MayRefuse ==
    /\ Cfg.proj = "mercator"
    /\ RGt(MercatorY(Cfg.p, Cfg.p.lines - 1), 30)

Run == /\ Ev.op = "run"
       /\ (Ev.ok = ~MustRefuse \/ (MayRefuse /\ ~Ev.ok))
       /\ Ev.ok => Ev.rows > 0
       /\ Consume

Row == /\ Ev.op = "row"
       /\ \A j \in 1..Len(Ev.lat) : PixelOK(Ev.k, Ev.i + j - 1, Ev.lat[j], Ev.lon[j])
       /\ Consume

Init == KitInit
Next == More /\ (Run \/ Row)
Spec == Init /\ [][Next]_<<sc, l>>
=============================================================================
