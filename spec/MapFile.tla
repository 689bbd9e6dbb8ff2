------------------------------ MODULE MapFile ------------------------------
(***************************************************************************)
(* The parts of a map file and what their headers say (C08 C09).           *)
(*                                                                         *)
(* A request is a record with                                              *)
(*   user        facts the user gave (Facts.tla; keys blank, scale,        *)
(*               offset, author, origin, unit)                             *)
(*   object, projection, comments, xcomments, samples, lines, grid         *)
(*   planes      sequence of [kind, srcs, mark]: kind "images" or          *)
(*               "computed"; srcs the facts of its sources; mark the only  *)
(*               datum of its images                                       *)
(***************************************************************************)
EXTENDS Facts, FReal

RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))

SourcesOf(req) == Concat([j \in 1..Len(req.planes) |-> req.planes[j].srcs])
FactsOf(req) == Resolved(req.user, SourcesOf(req))

IsInteger(t) == Rank(t) \in 1..4
Bitpix(t) == CASE t = "BYTE" -> 8 [] t = "SHORT" -> 16 [] t = "LONG" -> 32 [] t = "LONGLONG" -> 64
               [] t = "FLOAT" -> -32 [] t = "DOUBLE" -> -64
LowestOf(t) == CASE t = "BYTE" -> "0" [] t = "SHORT" -> "-32768" [] t = "LONG" -> "-2147483648"
               [] OTHER -> "-9223372036854775808"
HighestOf(t) == CASE t = "BYTE" -> "255" [] t = "SHORT" -> "32767" [] t = "LONG" -> "2147483647"
               [] OTHER -> "9223372036854775807"

(* Nobody knows the data type: no map can be made. *)
Undetermined(req) == FactsOf(req).type = ""

Axes(req) == IF Len(req.planes) > 1 THEN << req.samples, req.lines, Len(req.planes) >>
             ELSE << req.samples, req.lines >>

BlankRight(f, blank) ==
    IF ~IsInteger(f.type) \/ f.vals["blank"] = "" THEN blank = ""
    ELSE \/ blank = f.vals["blank"]
         \* an inherited value that does not fit means nothing
         \/ RLt(f.vals["blank"], LowestOf(f.type)) \/ RLt(HighestOf(f.type), f.vals["blank"])

(* A computed plane alone in an integer map has a scale of its own. *)
OwnScale(req, f) == IsInteger(f.type) /\ Len(req.planes) = 1 /\ req.planes[1].kind = "computed"
ScaleRight(req, f, scale, zero) ==
    OwnScale(req, f) \/
    /\ REq(IF scale = "" THEN "1" ELSE scale, IF f.vals["scale"] = "" THEN "1" ELSE f.vals["scale"])
    /\ REq(IF zero = "" THEN "0" ELSE zero, IF f.vals["offset"] = "" THEN "0" ELSE f.vals["offset"])

PrimaryRight(req, h) ==
    LET f == FactsOf(req)
    IN /\ h.bitpix = Bitpix(f.type)
       /\ h.axes = Axes(req)
       /\ h.object = req.object
       /\ h.author = f.vals["author"]
       /\ h.origin = f.vals["origin"]
       /\ h.unit \in {"", f.vals["unit"]}
       /\ h.comments = req.comments
       /\ \E j \in 1..Len(h.projections) : h.projections[j] = req.projection
       /\ h.creator = "MaRC"
       /\ h.dated
       /\ BlankRight(f, h.blank)
       /\ ScaleRight(req, f, h.scale, h.zero)
       /\ h.sums

GridRight(req, h) ==
    /\ h.bitpix = 8
    /\ h.axes = << req.samples, req.lines >>
    /\ h.comments = req.xcomments
    /\ \E j \in 1..Len(h.projections) : h.projections[j] = req.projection
    /\ h.creator = "MaRC"
    /\ h.dated
    /\ h.sums

Parts(req) == IF req.grid THEN 2 ELSE 1
=============================================================================
