------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The order of the statements of an input file (C03).                     *)
(*                                                                         *)
(* A statement is a keyword, or KEYWORD=WORD for keywords that take a word.*)
(* The documented order is a regular expression over statements; what may  *)
(* still follow is a set of sequences of its pieces (partial derivatives). *)
(***************************************************************************)
EXTENDS Integers, Sequences

K(k) == [r |-> "key", k |-> k]
Opt(s) == [r |-> "opt", o |-> s]
Star(s) == [r |-> "star", s |-> s]
Alt(ss) == [r |-> "alt", a |-> ss]
Or(s, u) == Alt({s, u})
Words(k, ws) == Alt({ << K(k \o "=" \o w) >> : w \in ws })
AnyOrder(s, u) == Or(s \o u, u \o s)
Plus(s) == s \o << Star(s) >>

RECURSIVE After(_, _)
After(s, k) ==
    IF s = << >> THEN {}
    ELSE LET h == Head(s)
             t == Tail(s)
         IN CASE h.r = "key" -> IF h.k = k THEN {t} ELSE {}
              [] h.r = "opt" -> { u \o t : u \in After(h.o, k) } \cup After(t, k)
              [] h.r = "star" -> { u \o << h >> \o t : u \in After(h.s, k) } \cup After(t, k)
              [] h.r = "alt" -> UNION { After(u \o t, k) : u \in h.a }

RECURSIVE Done(_)
Done(s) == \/ s = << >>
           \/ LET h == Head(s) IN
              /\ CASE h.r = "key" -> FALSE
                   [] h.r = "alt" -> \E u \in h.a : Done(u)
                   [] OTHER -> TRUE
              /\ Done(Tail(s))

RECURSIVE First(_)
First(s) ==
    IF s = << >> THEN {}
    ELSE LET h == Head(s)
             t == Tail(s)
         IN CASE h.r = "key" -> {h.k}
              [] h.r = "opt" -> First(h.o) \cup First(t)
              [] h.r = "star" -> First(h.s) \cup First(t)
              [] h.r = "alt" -> UNION { First(u \o t) : u \in h.a }

-----------------------------------------------------------------------------
YesNo == {"YES", "NO"}
Types == {"BYTE", "SHORT", "LONG", "LONGLONG", "FLOAT", "DOUBLE"}

Radii == Alt({ << K(p[1]), K(p[2]) >> : p \in { q \in {"EQ_RAD", "POL_RAD", "FLATTENING"} \X {"EQ_RAD", "POL_RAD", "FLATTENING"} :
                                                q[1] # q[2] } })
Intervals == Alt({ << K("GRID_INTERVAL") >>, << K("LAT_GRID_INTERVAL"), Opt(<< K("LON_GRID_INTERVAL") >>) >>,
                   << K("LON_GRID_INTERVAL"), Opt(<< K("LAT_GRID_INTERVAL") >>) >> })
Grid == << Words("GRID", YesNo), Opt(<< Intervals >>) >>

SubObserv == AnyOrder(<< K("SUB_OBSERV_LAT") >>, << K("SUB_OBSERV_LON") >>)
SubSolar == AnyOrder(<< K("SUB_SOLAR_LAT") >>, << K("SUB_SOLAR_LON") >>)
Centre == Or(<< AnyOrder(<< K("SAMPLE_CENTER") >>, << K("LINE_CENTER") >>) >>,
             << AnyOrder(<< K("LAT_AT_CENTER") >>, << K("LON_AT_CENTER") >>) >>)
LatType == Or(<< Words("LATITUDE_TYPE", {"CENTRIC", "GRAPHIC"}) >>, << Alt({ << K("CENTRIC") >>, << K("GRAPHIC") >> }) >>)

Options(s) == Opt(<< K("OPTIONS"), Opt(<< Words("AVERAGING", {"NONE", "WEIGHTED", "UNWEIGHTED"}) >>) >> \o s)
LatRange == AnyOrder(<< K("LO_LAT") >>, << K("HI_LAT") >>)
LonRange == AnyOrder(<< K("LO_LON") >>, << K("HI_LON") >>)
OrthoOptions ==
    Alt({ << >>, << K("POSITION_ANGLE") >>, << K("KM_PER_PIXEL") >>, << Centre >>,
          << SubObserv, Opt(<< K("POSITION_ANGLE"), Opt(<< K("KM_PER_PIXEL"), Opt(<< Centre >>) >>) >>) >> })
Projection ==
    Alt({ << K("TYPE=MERCATOR"), Options(<< >>) >>,
          << K("TYPE=ORTHO"), Options(<< OrthoOptions >>) >>,
          << K("TYPE=P_STEREO"), Options(<< Words("POLE", {"N", "S"}), Opt(<< K("MAX_LAT") >>) >>) >>,
          << K("TYPE=SIMPLE_C"),
             Options(<< Opt(<< LatType >>),
                        Alt({ << >>, << LatRange >>, << LonRange >>, << LatRange, LonRange >>, << LonRange, LatRange >> }) >>) >> })

Range2(a, b) == Alt({ << >>, << K(a) >>, << K(b) >>, << K(a), K(b) >>, << K(b), K(a) >> })
Side(a, b) == Alt({ << K(a) >>, << K(b) >>, << K(a), K(b) >>, << K(b), K(a) >> })
Nibbling ==
    LET s == << Side("NIBBLE_LEFT", "NIBBLE_RIGHT") >>
        n == << Side("NIBBLE_TOP", "NIBBLE_BOTTOM") >>
    IN Alt({ << >>, << K("NIBBLE") >>, s, n, s \o n, n \o s })
Image ==
    << K("IMAGE"), Nibbling, Opt(<< Words("INVERT", {"VERTICAL", "HORIZONTAL", "BOTH"}) >>),
       Opt(<< Words("INTERPOLATE", YesNo) >>), Opt(<< Words("REMOVE_SKY", YesNo) >>), Centre,
       Opt(<< AnyOrder(<< K("SAMPLE_OA") >>, << K("LINE_OA") >>) >>), Opt(<< K("FLAT_FIELD") >>),
       Opt(<< Alt({ << K("MINNAERT") >>, << K("MINNAERT=AUTO") >>, << K("MINNAERT=TABLE") >> }) >>),
       Opt(<< Words("GEOM_CORRECT", YesNo) >>), Opt(<< K("EMI_ANG_LIMIT") >>), Opt(<< Words("TERMINATOR", YesNo) >>),
       SubObserv, K("POSITION_ANGLE"), SubSolar, K("RANGE"),
       Alt({ << K("KM_PER_PIXEL") >>, << K("ARCSEC_PER_PIX") >>, << K("FOCAL_LENGTH"), K("PIXEL_SCALE") >>,
             << K("PIXEL_SCALE"), K("FOCAL_LENGTH") >> }) >>

Plane ==
    << K("PLANE"), Range2("DATA_MIN", "DATA_MAX"),
       Alt({ Plus(Image),
             << K("MU"), SubObserv, K("RANGE"), Opt(<< SubSolar >>) >>,
             << K("MU0"), Opt(<< SubObserv, K("RANGE") >>), SubSolar >>,
             << K("PHASE"), SubObserv, K("RANGE"), SubSolar >>,
             << K("LATITUDE"), Opt(<< LatType >>) >>,
             << K("LONGITUDE") >> }) >>

Entry ==
    << K("MAP"), Opt(<< K("AUTHOR") >>), Opt(<< K("ORIGIN") >>), Star(<< K("COMMENT") >>), Star(<< K("XCOMMENT") >>),
       K("BODY"), Radii, Words("ROTATION", {"PROGRADE", "RETROGRADE"}),
       Opt(<< K("DATA_OFFSET") >>), Opt(<< K("DATA_SCALE") >>), Opt(<< Words("DATA_TYPE", Types) >>), Opt(<< K("DATA_BLANK") >>),
       Opt(Grid), Projection, Opt(<< K("PLANES") >>), K("SAMPLES"), K("LINES") >> \o Plus(Plane)

InputFile == Plus(Entry)

FollowAll(ss, k) == UNION { After(s, k) : s \in ss }
FirstAll(ss) == UNION { First(s) : s \in ss }
DoneAll(ss) == \E s \in ss : Done(s)
=============================================================================
