------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* What an entry of the input means (C02 C21).                             *)
(*                                                                         *)
(* The configuration file and then the input files are read one setting    *)
(* after another.  A setting belongs to the map, the plane or the image    *)
(* being read and to nothing else.  What a map, plane or image does not    *)
(* say itself is taken from the configuration, if it is one of the         *)
(* configurable settings, else it is the built-in default.                 *)
(*                                                                         *)
(* The map made is a function of this meaning: of nothing else the program *)
(* read or made before or after.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES conf,    \* configurable settings the configuration file gives
          maps,    \* maps read so far in this run, the last one open
          known    \* meaning and map made, for all maps seen in any run

Nothing == << >>

Sides == {"NIBBLE_LEFT", "NIBBLE_RIGHT", "NIBBLE_TOP", "NIBBLE_BOTTOM"}
Grids == {"LAT_GRID_INTERVAL", "LON_GRID_INTERVAL"}

(* Settings that stand for several. *)
Expand(k, v) == IF k = "NIBBLE" THEN [s \in Sides |-> v]
                ELSE IF k = "GRID_INTERVAL" THEN [s \in Grids |-> v]
                ELSE k :> v

Give(f, k, v) == Expand(k, v) @@ f

Own(f, k, default) == IF k \in DOMAIN f THEN f[k]
                      ELSE IF k \in DOMAIN conf THEN conf[k] ELSE default

(* Meaning of an image, a plane and a map. *)
Image(f) == [s \in Sides |-> Own(f, s, "0")] @@ f
Plane(p) == [own |-> ("DATA_MIN" :> Own(p.own, "DATA_MIN", "")) @@ ("DATA_MAX" :> Own(p.own, "DATA_MAX", "")) @@ p.own,
             images |-> [j \in 1..Len(p.images) |-> Image(p.images[j])]]
HasGrid(f) == "GRID" \in DOMAIN f /\ f["GRID"] = "YES"
Top(f) == LET g == [k \in DOMAIN f \ (Grids \cup {"GRID"}) |-> f[k]]
          IN IF HasGrid(f) THEN [k \in Grids |-> Own(f, k, "10")] @@ g ELSE g
Map(m) == [own |-> Top(m.own), planes |-> [j \in 1..Len(m.planes) |-> Plane(m.planes[j])]]

(* A plane's pixels depend on the map's own settings and the plane's; the
   blank value of an integer map may come from any plane unless it is given. *)
Floating(m) == "DATA_TYPE" \in DOMAIN m.own /\ m.own["DATA_TYPE"] \in {"FLOAT", "DOUBLE"}
BlankGiven(m) == "DATA_TYPE" \in DOMAIN m.own /\ "DATA_BLANK" \in DOMAIN m.own
Apart(m) == Floating(m) \/ BlankGiven(m)
PlaneKey(m, j) == [own |-> [k \in DOMAIN m.own \ {"PLANES"} |-> m.own[k]], plane |-> m.planes[j]]

---------------------------------------------------------------------------
(* Reading. *)
NewRun == conf' = Nothing /\ maps' = << >> /\ UNCHANGED known

Configure(k, v) == conf' = Give(conf, k, v) /\ UNCHANGED << maps, known >>

StartMap == maps' = Append(maps, [own |-> Nothing, planes |-> << >>]) /\ UNCHANGED << conf, known >>
Last == maps[Len(maps)]
SetLast(m) == maps' = [maps EXCEPT ![Len(maps)] = m]
StartPlane == /\ maps # << >>
              /\ SetLast([Last EXCEPT !.planes = Append(@, [own |-> Nothing, images |-> << >>])])
              /\ UNCHANGED << conf, known >>
StartImage == /\ maps # << >> /\ Last.planes # << >>
              /\ SetLast([Last EXCEPT !.planes[Len(Last.planes)].images = Append(@, Nothing)])
              /\ UNCHANGED << conf, known >>
(* A setting belongs to the innermost thing being read. *)
Setting(k, v) ==
    /\ maps # << >>
    /\ LET np == Len(Last.planes)
           ni == IF np = 0 THEN 0 ELSE Len(Last.planes[np].images)
       IN SetLast(IF np = 0 THEN [Last EXCEPT !.own = Give(@, k, v)]
                  ELSE IF ni = 0 THEN [Last EXCEPT !.planes[np].own = Give(@, k, v)]
                  ELSE [Last EXCEPT !.planes[np].images[ni] = Give(@, k, v)])
    /\ UNCHANGED << conf, known >>

(* The same meaning makes the same map. *)
Agrees(key, print) == /\ print # ""
                      /\ \A x \in known : x.key = key => x.print = print
Learn(key, print) == known' = known \cup {[key |-> key, print |-> print]}

MapMade(i, print) == /\ i \in 1..Len(maps)
                     /\ \E key \in {Map(maps[i])} : Agrees(key, print) /\ Learn(key, print)
                     /\ UNCHANGED << conf, maps >>
PlaneMade(i, j, print) == /\ i \in 1..Len(maps)
                          /\ \E m \in {Map(maps[i])} :
                                /\ j \in 1..Len(m.planes)
                                /\ IF Apart(m) THEN Agrees(PlaneKey(m, j), print) /\ Learn(PlaneKey(m, j), print)
                                   ELSE UNCHANGED known
                          /\ UNCHANGED << conf, maps >>
=============================================================================
