------------------------------- MODULE Robust -------------------------------
(***************************************************************************)
(* A run over files of which nothing is known: texts and images damaged in *)
(* any way.  Whether a file is accepted and a map can be made is open; the *)
(* run still comes to an end by itself, says what went wrong, and a run    *)
(* that reports success leaves complete maps only.  There is no step for a *)
(* crash, for going on for ever or for touching memory that is not its     *)
(* own.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES phase,    \* "reading" "making" "over"
          left,     \* maps named and not yet made (in whatever number)
          disk,     \* function from names to "" (no file), "whole", "torn"
          failed,   \* something was refused or could not be made
          told      \* an error was reported
rvars == <<phase, left, disk, failed, told>>

RobustInit(names) == /\ phase = "reading" /\ left = {} /\ disk = [n \in names |-> ""]
                     /\ failed = FALSE /\ told = FALSE

Name(n) == /\ phase = "reading" /\ n \in DOMAIN disk /\ n \notin left
           /\ left' = left \cup {n}
           /\ UNCHANGED <<phase, disk, failed, told>>
Refuse == /\ phase = "reading" /\ phase' = "over" /\ failed' = TRUE /\ told' = TRUE
          /\ UNCHANGED <<left, disk>>
Accept == /\ phase = "reading" /\ phase' = "making"
          /\ UNCHANGED <<left, disk, failed, told>>
Make(n) == /\ phase = "making" /\ n \in left
           /\ disk' = [disk EXCEPT ![n] = "whole"] /\ left' = left \ {n}
           /\ UNCHANGED <<phase, failed, told>>
Spoil(n) == /\ phase = "making" /\ n \in left
            /\ \E c \in {"", "torn"} : disk' = [disk EXCEPT ![n] = c]
            /\ left' = left \ {n} /\ failed' = TRUE /\ told' = TRUE
            /\ UNCHANGED phase
End == /\ phase = "making" /\ left = {} /\ phase' = "over"
       /\ UNCHANGED <<left, disk, failed, told>>
RobustNext == Refuse \/ Accept \/ End \/ \E n \in DOMAIN disk : Name(n) \/ Make(n) \/ Spoil(n)

Success == phase = "over" /\ ~failed
=============================================================================
