------------------------------- MODULE Input -------------------------------
(***************************************************************************)
(* Reading an input file statement by statement (C03): the order           *)
(* (Grammar.tla) and the domain of every value.                            *)
(*                                                                         *)
(* A statement is [sym, t]: the keyword (KEYWORD=WORD for keywords taking  *)
(* a word) and the tokens of its value.  files gives for the image files   *)
(* their size [w, h].                                                      *)
(***************************************************************************)
EXTENDS Grammar, Expr

VARIABLES rest,    \* what may follow
          env,     \* what the current entry said so far
          sound,   \* every value so far lies in its domain
          able     \* every map of the file so far can be made

ivars == << rest, env, sound, able >>

NewEnv == [ eq |-> "", pol |-> "", flat |-> "", pro |-> TRUE, type |-> "", lo |-> "", hi |-> "", min |-> "", max |-> "",
            planes |-> 0, count |-> 0, numbered |-> 0, image |-> FALSE, lon |-> FALSE, left |-> 0, right |-> 0, top |-> 0,
            bottom |-> 0, w |-> 0, h |-> 0 ]

InputStart == rest = {InputFile} /\ env = NewEnv /\ sound = TRUE /\ able = TRUE

-----------------------------------------------------------------------------
Positive(x) == RLt(0, x)
Anything(x) == TRUE
NonZero(x) == ~REq(x, 0)

ShapeOK(e) == /\ e.eq # "" => RLt(0, e.eq)
              /\ e.pol # "" => RLt(0, e.pol)
              /\ e.flat # "" => RLe(0, e.flat) /\ RLt(e.flat, 1)
              /\ (e.eq # "" /\ e.pol # "") => RLe(e.pol, e.eq)

(* A count: a whole number, at least m. *)
Count(t, m) ==
    LET w == Whole(t)
    IN IF WholeFits(w, "LONGLONG") /\ ~w.neg /\ (m = 1 => w.d # << >>)
       THEN [ok |-> TRUE, n |-> IF Len(w.d) <= 9 THEN AsNumber(w.d) ELSE 999999999]
       ELSE [ok |-> FALSE, n |-> 0]

(* The statement seen in e: [ok, e] with the new environment. *)
OK(e) == [ok |-> TRUE, e |-> e]
If(c, e) == [ok |-> c, e |-> e]

LatKeys == {"SUB_OBSERV_LAT", "SUB_SOLAR_LAT", "LAT_AT_CENTER", "MAX_LAT"}
LonKeys == {"SUB_OBSERV_LON", "SUB_SOLAR_LON", "LON_AT_CENTER", "LO_LON", "HI_LON"}
PositiveKeys == {"KM_PER_PIXEL", "ARCSEC_PER_PIX", "FOCAL_LENGTH", "PIXEL_SCALE", "GRID_INTERVAL", "LAT_GRID_INTERVAL",
                 "LON_GRID_INTERVAL"}
AnyKeys == {"DATA_OFFSET", "SAMPLE_CENTER", "LINE_CENTER", "SAMPLE_OA", "LINE_OA", "MINNAERT"}
NibbleKeys == [ NIBBLE |-> {"left", "right", "top", "bottom"}, NIBBLE_LEFT |-> {"left"}, NIBBLE_RIGHT |-> {"right"},
                NIBBLE_TOP |-> {"top"}, NIBBLE_BOTTOM |-> {"bottom"} ]
FloatTypes == {"FLOAT", "DOUBLE"}

Number(e, t, P(_), f) == LET x == Plain(t, P) IN If(x.ok, [e EXCEPT ![f] = x.v])

(* Both ends of the latitude range, or of the data range, known: in order. *)
Ordered(x, a, b) == x.ok /\ (a # "" /\ b # "" => RLt(a, b))

Meaning(e, k, t, size) ==
    CASE k = "MAP" -> OK(NewEnv)
      [] k = "EQ_RAD" -> Number(e, t, Anything, "eq")
      [] k = "POL_RAD" -> Number(e, t, Anything, "pol")
      [] k = "FLATTENING" -> Number(e, t, Anything, "flat")
      [] k \in {"ROTATION=PROGRADE", "ROTATION=RETROGRADE"} -> If(ShapeOK(e), [e EXCEPT !.pro = k = "ROTATION=PROGRADE"])
      [] k = "DATA_SCALE" -> If(Plain(t, NonZero).ok, e)
      [] k \in { "DATA_TYPE=" \o x : x \in Types } -> OK([e EXCEPT !.type = CHOOSE x \in Types : k = "DATA_TYPE=" \o x])
      [] k = "DATA_BLANK" -> If(e.type \in Types \ FloatTypes /\ WholeFits(Whole(t), e.type), e)
      [] k \in LatKeys -> If(Latitude(Shape(e), t).ok, e)
      [] k \in LonKeys -> If(Longitude(Shape(e), t).ok, e)
      [] k = "LO_LAT" -> LET x == Latitude(Shape(e), t) IN If(Ordered(x, x.v, e.hi), [e EXCEPT !.lo = x.v])
      [] k = "HI_LAT" -> LET x == Latitude(Shape(e), t) IN If(Ordered(x, e.lo, x.v), [e EXCEPT !.hi = x.v])
      [] k = "POSITION_ANGLE" -> If(PositionAngle(t).ok, e)
      [] k = "EMI_ANG_LIMIT" -> LET x == Plain(t, Positive) IN If(x.ok /\ RLt(x.v, 90), e)
      [] k = "RANGE" -> LET x == Distance(t) IN If(x.ok /\ RLt(Shape(e).pol, x.v), e)
      [] k \in PositiveKeys -> If(Plain(t, Positive).ok, e)
      [] k \in AnyKeys -> If(Plain(t, Anything).ok, e)
      [] k = "PLANES" -> LET c == Count(t, 1) IN If(c.ok, [e EXCEPT !.planes = c.n])
      [] k \in {"SAMPLES", "LINES"} -> If(Count(t, 1).ok, e)
      [] k = "PLANE" ->
            LET n == [e EXCEPT !.count = @ + 1, !.min = "", !.max = ""]
            IN IF t = << >> THEN OK(n)
               ELSE LET c == Count(t, 1)
                    IN If(c.ok /\ e.planes > 0 /\ c.n = e.numbered + 1 /\ c.n <= e.planes, [n EXCEPT !.numbered = c.n])
      [] k = "DATA_MIN" -> LET x == Plain(t, Anything) IN If(Ordered(x, x.v, e.max), [e EXCEPT !.min = x.v])
      [] k = "DATA_MAX" -> LET x == Plain(t, Anything) IN If(Ordered(x, e.min, x.v), [e EXCEPT !.max = x.v])
      [] k = "IMAGE" -> OK([e EXCEPT !.image = TRUE, !.left = 0, !.right = 0, !.top = 0, !.bottom = 0, !.w = size.w, !.h = size.h])
      [] k \in DOMAIN NibbleKeys ->
            LET c == Count(t, 0) IN If(c.ok, [f \in DOMAIN e |-> IF f \in NibbleKeys[k] THEN c.n ELSE e[f]])
      [] k = "LONGITUDE" -> OK([e EXCEPT !.lon = TRUE])
      [] OTHER -> OK(e)

-----------------------------------------------------------------------------
(* An entry is complete. *)
PlanesOK(e) == e.planes > 0 => e.count = e.planes
(* A map needs a data type of its own or an image to take it from; BYTE cannot hold longitudes. *)
CanMake(e) == /\ e.type # "" \/ e.image
              /\ ~(e.type = "BYTE" /\ e.lon)
(* An image with something left after nibbling. *)
ImageLeft(e) == e.w = 0 \/ (e.left + e.right < e.w /\ e.top + e.bottom < e.h)

SayStatement(k, t, size) ==
    LET m == IF sound /\ FollowAll(rest, k) # {} THEN Meaning(env, k, t, size) ELSE [ok |-> FALSE, e |-> env]
        over == k = "MAP" /\ env.count > 0
    IN /\ rest' = FollowAll(rest, k)
       /\ \E mm \in {m} :
            /\ env' = mm.e
            /\ sound' = (sound /\ rest' # {} /\ mm.ok /\ (over => PlanesOK(env)))
       /\ able' = (able /\ (over => CanMake(env))
                        /\ (k \in {"PLANE", "MAP", "IMAGE"} => ImageLeft(env)))

FileAccepted == sound /\ DoneAll(rest) /\ PlanesOK(env)
FileMakeable == able /\ CanMake(env) /\ ImageLeft(env)
=============================================================================
