----------------------------- MODULE MapMaking -----------------------------
(***************************************************************************)
(* From source data to the stored map: which pixels are mapped, what they  *)
(* hold, and the facts recorded about them.                                *)
(***************************************************************************)
EXTENDS Sources

IntTypes == {"BYTE", "SHORT", "LONG", "LONGLONG"}
IsInt(t) == t \in IntTypes

TypeMin(t) == CASE t = "BYTE" -> "0" [] t = "SHORT" -> "-32768"
                [] t = "LONG" -> "-2147483648" [] t = "LONGLONG" -> "-9.223372036854775808E18"
                [] t = "FLOAT" -> "-3.4028234663852886E38" [] t = "DOUBLE" -> "-1.7976931348623157E308"
TypeMax(t) == CASE t = "BYTE" -> "255" [] t = "SHORT" -> "32767"
                [] t = "LONG" -> "2147483647" [] t = "LONGLONG" -> "9.2233720368547748E18"
                [] t = "FLOAT" -> "3.4028234663852886E38" [] t = "DOUBLE" -> "1.7976931348623157E308"

BlankOf(t, blank) == IF ~IsInt(t) THEN "NaN" ELSE IF blank = "" THEN "0" ELSE blank
SameValue(a, b) == IF RIsNaN(a) \/ RIsNaN(b) THEN RIsNaN(a) /\ RIsNaN(b) ELSE REq(a, b)

(* A plane's data range: what the user says, else (for a plane of a single *)
(* image) what the image's file says of its valid data, else no limit.     *)
LowEnd(pl) == IF pl.min # "" \/ Len(pl.imgs) # 1 THEN pl.min ELSE pl.imgs[1].fmin
HighEnd(pl) == IF pl.max # "" \/ Len(pl.imgs) # 1 THEN pl.max ELSE pl.imgs[1].fmax

(* Does a datum lie in the plane's range?  {TRUE, FALSE}: too close to say. *)
InRange(t, pl, v, tol) ==
    LET Ge(x, y) == IF RLe(y, RSub(x, tol)) THEN {TRUE}
                    ELSE IF RLt(RAdd(x, tol), y) THEN {FALSE} ELSE {TRUE, FALSE}
        Le(x, y) == IF RLe(RAdd(x, tol), y) THEN {TRUE}
                    ELSE IF RLt(y, RSub(x, tol)) THEN {FALSE} ELSE {TRUE, FALSE}
        scaled == IsInt(t) /\ pl.kind # "images"
    IN And(And(IF LowEnd(pl) = "" THEN {TRUE} ELSE Ge(v, LowEnd(pl)),
               IF HighEnd(pl) = "" THEN {TRUE} ELSE Le(v, HighEnd(pl))),
           IF scaled THEN {TRUE}
           ELSE And(Ge(v, TypeMin(t)), Le(v, TypeMax(t))))

(* Is s the datum v converted to the map's type?  enc: the plane's recorded *)
(* scale and zero point (computed planes of integer maps).                  *)
Converted(t, pl, enc, v, s, tol) ==
    IF RIsNaN(s) THEN FALSE
    ELSE IF IsInt(t) /\ pl.kind # "images" THEN
        /\ RGt(enc.scale, 0)
        /\ RLe(RAbs(RSub(RAdd(RMul(s, enc.scale), enc.zero), v)),
               RAdd(RMul(enc.scale, "1.000001"), RAdd(tol, "0.00000000001")))
    ELSE IF IsInt(t) THEN
        /\ RLe(RTruncR(RSub(v, tol)), s) /\ RLe(s, RTruncR(RAdd(v, tol)))
    ELSE IF t = "FLOAT" THEN
        RLe(RAbs(RSub(v, s)), RAdd(tol, RAdd(RMul("0.00000006", RAbs(v)), "1.0E-44")))
    ELSE RLe(RAbs(RSub(v, s)), RAdd(tol, RMul("0.000000000000001", RAbs(v))))

(* Status of a pixel holding s where the source may have any of outs:      *)
(* "mapped", "blank", "bad", or "either" (blank, or mapped to the very     *)
(* value that means blank, where rounding decides).                        *)
Status(t, blank, pl, enc, outs, s) ==
    LET tol == SourceTol(pl)
        vals == outs \ {"none"}
        isBlank == SameValue(s, BlankOf(t, blank))
        mayBlank == "none" \in outs \/ \E v \in vals : v = "any" \/ FALSE \in InRange(t, pl, v, tol)
        mayMap == \E v \in vals : v = "any" \/
                     (TRUE \in InRange(t, pl, v, tol) /\ Converted(t, pl, enc, v, s, tol))
    IN IF mayBlank /\ isBlank THEN (IF mayMap THEN "either" ELSE "blank")
       ELSE IF mayMap THEN "mapped" ELSE "bad"

(* Recorded extrema follow the stored values of mapped pixels. *)
NoExtrema == << >>
Extend(e, s) == IF e = NoExtrema THEN << s, s >>
                ELSE << IF RLt(s, e[1]) THEN s ELSE e[1], IF RLt(e[2], s) THEN s ELSE e[2] >>

RecordedTol(t) == IF t = "FLOAT" THEN "0.000001" ELSE IF t = "DOUBLE" THEN "0.0000000000001" ELSE "0.0"
RecordedOK(t, e, mn, mx) ==
    IF e = NoExtrema THEN mn = "" /\ mx = ""
    ELSE /\ mn # "" /\ mx # ""
         /\ RLe(RAbs(RSub(mn, e[1])), RMul(RecordedTol(t), RAbs(e[1])))
         /\ RLe(RAbs(RSub(mx, e[2])), RMul(RecordedTol(t), RAbs(e[2])))

(* Quantities that fit a data type at the scale MaRC promises: a type that *)
(* cannot hold the range of the quantity with unit resolution is refused.  *)
CannotHold(t, pl) == t = "BYTE" /\ pl.kind = "lon"
=============================================================================
