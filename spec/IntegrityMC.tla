---------------------------- MODULE IntegrityMC ----------------------------
(* A unit is written with its sums, then altered word by word, then used.  *)


EXTENDS Integrity, FiniteSets

CONSTANTS Values,   \* halves that occur
          Changes   \* alterations made at most

VARIABLES unit, altered, used, warned
vars == << unit, altered, used, warned >>

Words == Values \X Values
Complement(w) == << Half - 1 - w[1], Half - 1 - w[2] >>

(* head holds one word of its own and the complement. *)
Written(h, d, sd, sc) ==
    [head |-> IF sc THEN << h, Complement(Plus(h, d)) >> ELSE << h >>, data |-> << d >>,
     datasum |-> IF sd THEN d ELSE << >>, checksum |-> sc]

Init == /\ \E h, d \in Words : \E sd, sc \in BOOLEAN : unit = Written(h, d, sd, sc)
        /\ altered = {} /\ used = FALSE /\ warned = FALSE
AlterData == /\ ~used /\ Cardinality(altered) < Changes
             /\ \E w \in Words : w # unit.data[1] /\ unit' = [unit EXCEPT !.data[1] = w]
             /\ altered' = altered \cup {"data"}
             /\ UNCHANGED << used, warned >>
AlterHead == /\ ~used /\ Cardinality(altered) < Changes
             /\ \E w \in Words : w # unit.head[1] /\ unit' = [unit EXCEPT !.head[1] = w]
             /\ altered' = altered \cup {"head"}
             /\ UNCHANGED << used, warned >>
Use == /\ ~used
       /\ used' = TRUE
       /\ warned' = Spoiled(unit)
       /\ UNCHANGED << unit, altered >>
Next == AlterData \/ AlterHead \/ Use
Spec == Init /\ [][Next]_vars

(* Nothing altered: no warning. *)
Quiet == used /\ altered = {} => ~warned
(* One alteration that a stored sum covers is told, save for zero read as all ones. *)
Same(a, b) == a = b \/ {a, b} = {Zero, Ones}
Told == used /\ unit.datasum # << >> /\ Sum(unit.data) # unit.datasum => warned
ToldHead == used /\ unit.checksum /\ altered = {"head"} /\ ~Same(Sum(unit.head), Complement(Sum(unit.data))) => warned
Uncovered == used /\ unit.datasum = << >> /\ ~unit.checksum => ~warned
=============================================================================
