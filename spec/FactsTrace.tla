----------------------------- MODULE FactsTrace -----------------------------
(***************************************************************************)
(* Recorded use of the library's collection of map facts against Facts.tla *)
(* (C09).  Events:                                                         *)
(*   new    [id, user]         a set of facts, of the user or of a source  *)
(*   type   [id, val]  set [id, key, val]  comment [id, key, val]          *)
(*   merge  [to, from, ok]                                                 *)
(*   get    [id, type, vals, comments, xcomments]                          *)
(* A set once merged into another is not used again.  Where the target is  *)
(* itself a source (a plane) an integer type may replace a floating point  *)
(* one: the existing tests ask for it; maps are never made that way.       *)
(***************************************************************************)
EXTENDS TraceKit, Facts

VARIABLE regs      \* id |-> [user, given, facts, comments, xcomments]; given:
                   \* what the user stated of data type, comments and grid comments

Keys == { Cfg.keys[j] : j \in 1..Len(Cfg.keys) }
Empty == [type |-> "", vals |-> [k \in Keys |-> ""]]

New == /\ Ev.op = "new"
       /\ regs' = [j \in 1..Cfg.n |-> IF j = Ev.id THEN [user |-> Ev.user, given |-> {}, facts |-> Empty, comments |-> << >>,
                                                          xcomments |-> << >>] ELSE regs[j]]
       /\ Consume
Type == /\ Ev.op = "type" /\ Ev.ok
        /\ regs' = [regs EXCEPT ![Ev.id].facts.type = Ev.val, ![Ev.id].given = @ \cup {"type"}]
        /\ Consume
Set == /\ Ev.op = "set"
       /\ regs' = [regs EXCEPT ![Ev.id].facts.vals[Ev.key] = Ev.val]
       /\ Consume
Comment == /\ Ev.op = "comment"
           /\ regs' = (IF Ev.key = "comment"
                       THEN [regs EXCEPT ![Ev.id].comments = Append(@, Ev.val), ![Ev.id].given = @ \cup {"c"}]
                       ELSE [regs EXCEPT ![Ev.id].xcomments = Append(@, Ev.val), ![Ev.id].given = @ \cup {"x"}])
           /\ Consume

Texts(t, f, own) == IF own THEN t ELSE t \o f    \* own: texts the user gave
TypesOf(t, f) ==
    IF t.user /\ "type" \in t.given THEN {t.facts.type}
    ELSE {Wider(t.facts.type, f.facts.type)} \cup
         (IF ~t.user /\ Rank(t.facts.type) >= 5 /\ Rank(f.facts.type) \in 1..4 THEN {f.facts.type} ELSE {})
Merge == /\ Ev.op = "merge" /\ Ev.ok
         /\ \E t \in { regs[Ev.to] } : \E f \in { regs[Ev.from] } : \E y \in TypesOf(t, f) :
               regs' = [regs EXCEPT ![Ev.to] =
                   [user |-> t.user, given |-> t.given,
                    facts |-> [type |-> y, vals |-> AddSource(t.facts, f.facts).vals],
                    comments |-> Texts(t.comments, f.comments, t.user /\ "c" \in t.given),
                    xcomments |-> Texts(t.xcomments, f.xcomments, t.user /\ "x" \in t.given)]]
         /\ Consume
Get == /\ Ev.op = "get"
       /\ LET r == regs[Ev.id]
          IN /\ Ev.type = r.facts.type
             /\ \A k \in Keys : Ev.vals[k] = r.facts.vals[k]
             /\ Ev.comments = r.comments
             /\ Ev.xcomments = r.xcomments
       /\ UNCHANGED regs
       /\ Consume

None == [user |-> FALSE, given |-> {}, facts |-> [type |-> "", vals |-> [k \in {} |-> ""]], comments |-> << >>, xcomments |-> << >>]
Init == KitInit /\ regs = [j \in 1..Cfg.n |-> None]
Next == More /\ (New \/ Type \/ Set \/ Comment \/ Merge \/ Get)
Spec == Init /\ [][Next]_<< sc, l, regs >>
=============================================================================
