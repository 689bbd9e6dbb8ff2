----------------------------- MODULE SettingsMC -----------------------------
(* The reader's registers: one set of values for the innermost map, plane  *)
(* and image each, put back to the defaults whenever a new one starts.     *)
(* Every input of up to two maps, with every subset of settings given,     *)
(* means the same to the registers as to Settings.                         *)
EXTENDS Settings

CONSTANTS MaxMaps, MaxPlanes, MaxImages

Values == {"1"}   \* said by the entries
ConfValues == {"2"}
Unset == "unset"

VARIABLE  got       \* settings captured: sequence of maps
mvars == << conf, maps, known, got >>

MapKeys == {"GRID", "LAT_GRID_INTERVAL", "AUTHOR"}
PlaneKeys == {"DATA_MIN"}
ImageKeys == {"NIBBLE_LEFT"}

Default(k) == IF k \in DOMAIN conf THEN conf[k]
              ELSE CASE k = "LAT_GRID_INTERVAL" -> "10" [] k = "NIBBLE_LEFT" -> "0" [] k = "DATA_MIN" -> "" [] OTHER -> Unset

Fresh(ks) == [k \in ks |-> Default(k)]

Config == /\ maps = << >>
          /\ \E k \in {"LAT_GRID_INTERVAL", "DATA_MIN", "NIBBLE_LEFT"} \ DOMAIN conf, v \in ConfValues : Configure(k, v)
          /\ UNCHANGED got
NextMap == /\ Len(maps) < MaxMaps
           /\ maps # << >> => Last.planes # << >>
           /\ StartMap
           /\ got' = Append(got, [own |-> Fresh(MapKeys), planes |-> << >>])
NextPlane == /\ maps # << >> /\ Len(Last.planes) < MaxPlanes
             /\ StartPlane
             /\ got' = [got EXCEPT ![Len(got)].planes = Append(@, [own |-> Fresh(PlaneKeys), images |-> << >>])]
NextImage == /\ maps # << >> /\ Last.planes # << >> /\ Len(Last.planes[Len(Last.planes)].images) < MaxImages
             /\ StartImage
             /\ got' = [got EXCEPT ![Len(got)].planes[Len(Last.planes)].images = Append(@, Fresh(ImageKeys))]
Innermost == IF Last.planes = << >> THEN MapKeys
             ELSE IF Last.planes[Len(Last.planes)].images = << >> THEN PlaneKeys ELSE ImageKeys
Say == /\ maps # << >>
       /\ \E k \in Innermost, v \in Values \cup {"YES"} :
            /\ (v = "YES") = (k = "GRID")
            /\ Setting(k, v)
            /\ LET np == Len(Last.planes) IN
               got' = IF Innermost = MapKeys THEN [got EXCEPT ![Len(got)].own[k] = v]
                      ELSE IF Innermost = PlaneKeys THEN [got EXCEPT ![Len(got)].planes[np].own[k] = v]
                      ELSE [got EXCEPT ![Len(got)].planes[np].images[Len(Last.planes[np].images)][k] = v]

Init == /\ conf = Nothing /\ maps = << >> /\ known = {} /\ got = << >>
Next == Config \/ NextMap \/ NextPlane \/ NextImage \/ Say
Spec == Init /\ [][Next]_mvars

---------------------------------------------------------------------------
Own1(f, k, x) == IF k \in DOMAIN f THEN f[k] ELSE x
SameMeaning ==
    \A i \in 1..Len(maps) : \E m \in {Map(maps[i])} :
        /\ Own1(m.own, "AUTHOR", Unset) = got[i].own["AUTHOR"]
        /\ got[i].own["GRID"] = "YES" => m.own["LAT_GRID_INTERVAL"] = got[i].own["LAT_GRID_INTERVAL"]
        /\ got[i].own["GRID"] # "YES" => "LAT_GRID_INTERVAL" \notin DOMAIN m.own
        /\ \A j \in 1..Len(m.planes) :
              /\ m.planes[j].own["DATA_MIN"] = got[i].planes[j].own["DATA_MIN"]
              /\ \A q \in 1..Len(m.planes[j].images) :
                    m.planes[j].images[q]["NIBBLE_LEFT"] = got[i].planes[j].images[q]["NIBBLE_LEFT"]
(* Reading on does not change what was read. *)
Settled == [][ \A i \in 1..Len(maps) - 1 : Map(maps[i])' = Map(maps[i]) ]_mvars
=============================================================================
