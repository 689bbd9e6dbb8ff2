------------------------------- MODULE Locate -------------------------------
(***************************************************************************)
(* Where reading stops when a statement may not stand where it does (C26). *)
(*                                                                         *)
(* Files are read one after the other, statement by statement.  Reading    *)
(* stops at the first statement that cannot follow those before it in its  *)
(* file, or at the end of a file that is not complete.                     *)
(***************************************************************************)
EXTENDS Grammar

VARIABLES reading,  \* name of the file being read; "" before the first
          rest,     \* what may follow in it
          stop      \* << >>, or << file, first line, last line >> of the place

lvars == << reading, rest, stop >>

LocateStart == reading = "" /\ rest = {} /\ stop = << >>

(* What the end of a file of that many lines brings about. *)
Ended(lines) == IF stop = << >> /\ reading # "" /\ ~DoneAll(rest) THEN << reading, lines, lines + 1 >> ELSE stop

OpenFile(name, before) ==
    /\ stop' = Ended(before)
    /\ IF stop' = << >> THEN reading' = name /\ rest' = {InputFile}
       ELSE UNCHANGED << reading, rest >>

Statement(sym, line) ==
    IF stop # << >> THEN UNCHANGED lvars
    ELSE /\ rest' = FollowAll(rest, sym)
         /\ stop' = IF rest' = {} THEN << reading, line, line >> ELSE << >>
         /\ UNCHANGED reading

---------------------------------------------------------------------------
(* Reading that has not stopped can still lead to a complete file, and one *)
(* that has stopped stays so.                                              *)
Hopeful == reading # "" /\ stop = << >> => rest # {}
=============================================================================
