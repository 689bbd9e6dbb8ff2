----------------------------- MODULE ValueTrace -----------------------------
(***************************************************************************)
(* What the numbers, angles and distances of an input mean (C04), seen in  *)
(* the map.  cfg.args holds the tokens of each value by keyword; cfg.kind  *)
(* says what is looked at:                                                 *)
(*   "number"   DATA_OFFSET, event "number" [ok, got]                      *)
(*   "simple" "polar" "ortho"   the projection, events "row"               *)
(*   "mu" "mu0" "phase"   a computed plane, events "row" with val          *)
(* The shape of the body is cfg.args' EQ_RAD, POL_RAD, FLATTENING.         *)
(***************************************************************************)
EXTENDS TraceKit, Projections, Sources, Expr

Has(k) == k \in DOMAIN Cfg.args
Arg(k) == Cfg.args[k]
Free(x) == TRUE
Given(k) == IF Has(k) THEN Plain(Arg(k), Free).v ELSE ""
B == Shape([eq |-> Given("EQ_RAD"), pol |-> Given("POL_RAD"), flat |-> Given("FLATTENING"), pro |-> Cfg.pro])
Lat(b, k, d) == IF Has(k) THEN Latitude(b, Arg(k)).v ELSE d
Lon(b, k, d) == IF Has(k) THEN Longitude(b, Arg(k)).v ELSE d

P(b) ==
    CASE Cfg.kind = "simple" ->
            [ samples |-> Cfg.samples, lines |-> Cfg.lines, graphic |-> FALSE, loLat |-> Lat(b, "LO_LAT", "-90"),
              hiLat |-> Lat(b, "HI_LAT", "90"), loLon |-> Lon(b, "LO_LON", "0"), hiLon |-> Lon(b, "HI_LON", "360") ]
      [] Cfg.kind = "polar" ->
            [ samples |-> Cfg.samples, lines |-> Cfg.lines, north |-> Cfg.north, maxLat |-> Lat(b, "MAX_LAT", "0") ]
      [] Cfg.kind = "ortho" ->
            [ samples |-> Cfg.samples, lines |-> Cfg.lines, obsLat |-> Lat(b, "SUB_OBSERV_LAT", "0"),
              obsLon |-> Lon(b, "SUB_OBSERV_LON", "0"), pa |-> IF Has("POSITION_ANGLE") THEN PositionAngle(Arg("POSITION_ANGLE")).v ELSE "0",
              kmpp |-> Given("KM_PER_PIXEL"), centre |-> IF Has("LAT_AT_CENTER") THEN "latlon" ELSE IF Has("SAMPLE_CENTER") THEN "pixel" ELSE "none",
              cs |-> Given("SAMPLE_CENTER"), cl |-> Given("LINE_CENTER"), clat |-> Lat(b, "LAT_AT_CENTER", "0"),
              clon |-> Lon(b, "LON_AT_CENTER", "0") ]
      [] Cfg.kind \in {"mu", "mu0", "phase"} ->
            [ kind |-> Cfg.kind, graphic |-> FALSE, obsLat |-> Lat(b, "SUB_OBSERV_LAT", "0"), obsLon |-> Lon(b, "SUB_OBSERV_LON", "0"),
              range |-> IF Has("RANGE") THEN Distance(Arg("RANGE")).v ELSE "1", sunLat |-> Lat(b, "SUB_SOLAR_LAT", "0"),
              sunLon |-> Lon(b, "SUB_SOLAR_LON", "0") ]

PixelOK(b, p, k, i, lat, lon, val) ==
    CASE Cfg.kind = "simple" -> SimpleOK(b, p, k, i, lat, lon, "0.0000001")
      [] Cfg.kind = "polar" -> PolarOK(b, p, k, i, lat, lon, "0.000001")
      [] Cfg.kind = "ortho" ->
            IF RIsNaN(lat) /\ RIsNaN(lon) THEN OrthoBlankOK(b, p, k, i)
            ELSE OrthoOK(b, p, k, i, lat, lon, "0.00000001")
      [] OTHER -> \A v \in PlaneOutcomes(b, p, << >>, lat, lon) : Near(v, val, "0.00000001")

(* The value of an expression; one without a value is refused. *)
Number == /\ Ev.op = "number"
          /\ LET x == Plain(Arg("DATA_OFFSET"), Free)
             IN IF x.ok THEN Ev.ok /\ RLe(RAbs(RSub(Ev.got, x.v)), RMul("0.000000001", RAbs(x.v)))
                ELSE ~Ev.ok

Row == /\ Ev.op = "row"
       /\ \E b \in {B} : \E p \in {P(b)} :
            \A j \in 1..Len(Ev.lat) : PixelOK(b, p, Ev.k, Ev.i + j - 1, Ev.lat[j], Ev.lon[j], Ev.val[j])

Made == Ev.op = "made" /\ Ev.ok

Init == KitInit
Next == More /\ (Number \/ Made \/ Row) /\ Consume
Spec == Init /\ [][Next]_<< sc, l >>
=============================================================================
