------------------------------- MODULE Facts -------------------------------
(***************************************************************************)
(* Facts about a map (its data type, blank value, author, ...): what the   *)
(* user says wins, the sources fill the gaps.                              *)
(*                                                                         *)
(* A set of facts is a record [type, vals]: type is a data type or ""      *)
(* (open), vals a function from fact names to values ("" : open).          *)
(***************************************************************************)
EXTENDS Integers, Sequences

TypeOrder == << "BYTE", "SHORT", "LONG", "LONGLONG", "FLOAT", "DOUBLE" >>
Rank(t) == IF t = "" THEN 0 ELSE CHOOSE j \in 1..Len(TypeOrder) : TypeOrder[j] = t

(* Of two data types the one needed to hold the data of both: the wider,   *)
(* and a floating point type rather than an integer one.                   *)
Wider(s, t) == IF Rank(s) >= Rank(t) THEN s ELSE t

Prefer(a, b) == IF a # "" THEN a ELSE b

(* Taking another source into account. *)
AddSource(acc, s) ==
    [type |-> Wider(acc.type, s.type),
     vals |-> [k \in DOMAIN acc.vals |-> Prefer(acc.vals[k], s.vals[k])]]

(* Completing what the user said with what the sources say. *)
Complete(user, acc) ==
    [type |-> Prefer(user.type, acc.type),
     vals |-> [k \in DOMAIN user.vals |-> Prefer(user.vals[k], acc.vals[k])]]

-----------------------------------------------------------------------------
(* The declarative meaning. *)
RECURSIVE First(_, _)
First(k, ss) == IF ss = << >> THEN ""
                ELSE IF Head(ss).vals[k] # "" THEN Head(ss).vals[k] ELSE First(k, Tail(ss))

Widest(ss) == LET R == { Rank(ss[j].type) : j \in 1..Len(ss) } \cup {0}
                  m == CHOOSE r \in R : \A q \in R : q <= r
              IN IF m = 0 THEN "" ELSE TypeOrder[m]

Resolved(user, ss) ==
    [type |-> IF user.type # "" THEN user.type ELSE Widest(ss),
     vals |-> [k \in DOMAIN user.vals |-> IF user.vals[k] # "" THEN user.vals[k] ELSE First(k, ss)]]

Agreeing(ss) == \A i, j \in 1..Len(ss) : \A k \in DOMAIN ss[i].vals :
                    ss[i].vals[k] = "" \/ ss[j].vals[k] = "" \/ ss[i].vals[k] = ss[j].vals[k]
=============================================================================
