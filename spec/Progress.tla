------------------------------ MODULE Progress ------------------------------
(***************************************************************************)
(* Progress of making the planes of a map (C19).                           *)
(*                                                                         *)
(* Observers subscribe to the notifier of a map.  While a plane is made    *)
(* each of them is told of every pixel that shows a point of the body,     *)
(* with the size of the map and the number of pixels so far; at the end of *)
(* the plane each is told once that the whole map is complete and that it  *)
(* starts again from nothing.  The console is an observer: it shows a mark *)
(* for every two percent.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* --- one observer: number of pixels it was told of, and its phase --- *)
NewObserver == [n |-> 0, ph |-> "counting"]

(* Told of one more pixel. *)
Plotted(o, size, size1, count) ==
    /\ o.ph = "counting" /\ o.n < size /\ size1 = size /\ count = o.n + 1
(* Told of every pixel from the next one to the given one. *)
PlottedAll(o, size, size1, from, to) ==
    /\ o.ph = "counting" /\ size1 = size /\ from = o.n + 1 /\ to >= from /\ to <= size
(* Told that the plane is complete. *)
Completed(o, size, size1, count) ==
    /\ o.ph = "counting" /\ size1 = size /\ count = size
(* After starting again it counts the next plane. *)
Finished(o, body) == o.ph = "idle" /\ o.n = body

(* --- the console --- *)
Mark(p) == IF p = 100 THEN "100%\n" ELSE IF p % 20 = 0 THEN ToString(p) ELSE "."

(* What is shown while progress goes from a to b percent. *)
RECURSIVE Marks(_, _)
Marks(a, b) == IF a >= b THEN ""
               ELSE IF (a + 1) % 2 = 0 THEN Mark(a + 1) \o Marks(a + 1, b)
               ELSE Marks(a + 1, b)

Line == Marks(0, 100)       \* the complete line of a plane

(* Whole percents, by long division (numbers stay small): a percentage that
   is exactly whole may have been rounded down on the way, except for 0 and
   100. *)
Percents(size, count) ==
    LET r1 == (10 * count) % size
        p == 10 * ((10 * count) \div size) + ((10 * r1) \div size)
    IN IF (10 * r1) % size = 0 /\ p > 0 /\ p < 100 THEN {p - 1, p} ELSE {p}
Max(a, b) == IF a > b THEN a ELSE b

(* --- what the program prints for plane i of n --- *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN 1 ELSE 1 + Digits(n \div 10)
RECURSIVE Blanks(_)
Blanks(n) == IF n <= 0 THEN "" ELSE " " \o Blanks(n - 1)
PlaneLine(i, n) == "Plane " \o Blanks(Digits(n) - Digits(i)) \o ToString(i) \o " / " \o ToString(n)
                   \o ": " \o Line
=============================================================================
