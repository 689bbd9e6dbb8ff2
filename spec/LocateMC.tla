------------------------------ MODULE LocateMC ------------------------------
(* Two files of a few statements each, a line to a statement.              *)
EXTENDS Locate, FiniteSets

CONSTANTS Alphabet, Most

VARIABLES said, number, over
vars == << reading, rest, stop, said, number, over >>

Init == LocateStart /\ said = << >> /\ number = 0 /\ over = FALSE
Open == /\ number < 2 /\ ~over
        /\ OpenFile(<< "one", "two" >>[number + 1], Len(said))
        /\ number' = number + 1
        /\ said' = IF stop' = << >> THEN << >> ELSE said
        /\ UNCHANGED over
Say == /\ number > 0 /\ Len(said) < Most /\ ~over /\ stop = << >>
       /\ \E k \in Alphabet : Statement(k, Len(said) + 1) /\ said' = Append(said, k)
       /\ UNCHANGED << number, over >>
Close == /\ number > 0 /\ ~over
         /\ over' = TRUE
         /\ stop' = Ended(Len(said))
         /\ UNCHANGED << reading, rest, said, number >>
Next == Open \/ Say \/ Close
Spec == Init /\ [][Next]_vars

(* Nothing before the place was wrong: the statements up to it lead on. *)
RECURSIVE Leads(_, _)
Leads(ss, w) == IF w = << >> THEN ss ELSE Leads(FollowAll(ss, Head(w)), Tail(w))
Earliest == stop # << >> =>
    /\ stop[2] >= 1 \/ said = << >>
    /\ stop[2] = stop[3] => Leads({InputFile}, SubSeq(said, 1, stop[2] - 1)) # {} /\ Leads({InputFile}, SubSeq(said, 1, stop[2])) = {}
Stays == [][stop # << >> => stop' = stop]_vars
Finds == over /\ number > 0 /\ ~DoneAll(rest) => stop # << >>
=============================================================================
