------------------------------ MODULE RangesMC ------------------------------
(* All histories of operations on a few ranges of two small types, together *)
(* with what each range was given: the range is always the span of that.    *)
EXTENDS Ranges, FiniteSets

CONSTANTS Deep      \* number of operations in a history

Names == 1..3
Type == << "wide", "wide", "tiny" >>
Data(t) == Limit[t][1]..Limit[t][2]
Around == -4..5

VARIABLES reg,      \* the ranges
          given,    \* the values each was given since it was empty
          loose,    \* ranges of which a single bound was set
          n

vars == << reg, given, loose, n >>
Init == /\ reg = [i \in Names |-> Unset] /\ given = [i \in Names |-> {}]
        /\ loose = {} /\ n = 0
Go == n < Deep /\ n' = n + 1

Give(i, x) == /\ Go /\ reg' = [reg EXCEPT ![i] = WithDatum(@, x)]
              /\ given' = [given EXCEPT ![i] = @ \cup {x}] /\ UNCHANGED loose
GiveAny == \E i \in Names, x \in {-3, -1, 0, 2, 4} : x \in Data(Type[i]) /\ Give(i, x)
Join(i, j) == /\ Go /\ reg' = [reg EXCEPT ![i] = Merged(@, reg[j])]
              /\ given' = [given EXCEPT ![i] = @ \cup given[j]]
              /\ loose' = IF j \in loose THEN loose \cup {i} ELSE loose
JoinAny == \E i, j \in Names : Type[i] = Type[j] /\ Join(i, j)
Make(i, x, y) == /\ Go /\ x \in Around /\ y \in Around
                 /\ IF MustMake(x, y)
                    THEN \E r \in {[lo |-> << Clip(Type[i], x) >>, hi |-> << Clip(Type[i], y) >>]} :
                            /\ MadeOK(Type[i], x, y, r)
                            /\ reg' = [reg EXCEPT ![i] = r]
                            /\ given' = [given EXCEPT ![i] = {Clip(Type[i], x), Clip(Type[i], y)}]
                            /\ loose' = loose \ {i}
                    ELSE UNCHANGED << reg, given, loose >>
MakeAny == \E i \in Names, x, y \in {-4, 1} : Make(i, x, y)
SetLo(i, x) == /\ Go /\ reg' = [reg EXCEPT ![i].lo = << Clip(Type[i], x) >>] /\ loose' = loose \cup {i} /\ UNCHANGED given
SetHi(i, x) == /\ Go /\ reg' = [reg EXCEPT ![i].hi = << Clip(Type[i], x) >>] /\ loose' = loose \cup {i} /\ UNCHANGED given
SetAny == \E i \in Names, x \in {-4, 1} : SetLo(i, x) \/ SetHi(i, x)
Forget(i) == /\ Go /\ reg' = [reg EXCEPT ![i] = Unset] /\ given' = [given EXCEPT ![i] = {}] /\ loose' = loose \ {i}
ForgetAny == \E i \in Names : Forget(i)
Exchange(i, j) == /\ Go /\ reg' = [reg EXCEPT ![i] = reg[j], ![j] = reg[i]]
                  /\ given' = [given EXCEPT ![i] = given[j], ![j] = given[i]]
                  /\ loose' = {k \in Names : (IF k = i THEN j ELSE IF k = j THEN i ELSE k) \in loose}
ExchangeAny == \E i, j \in Names : i < j /\ Type[i] = Type[j] /\ Exchange(i, j)
Clipped(t, b) == IF b = <<>> THEN b ELSE << Clip(t, b[1]) >>
Carry(i, j) == /\ Go
               /\ \E r \in {[lo |-> Clipped(Type[i], reg[j].lo), hi |-> Clipped(Type[i], reg[j].hi)]} :
                     ConvertedOK(Type[i], reg[j], r) /\ reg' = [reg EXCEPT ![i] = r]
               /\ given' = [given EXCEPT ![i] = {Clip(Type[i], x) : x \in given[j]}]
               /\ loose' = IF j \in loose THEN loose \cup {i} ELSE loose \ {i}
CarryAny == \E i, j \in Names : i # j /\ Carry(i, j)

Next == GiveAny \/ JoinAny \/ MakeAny \/ SetAny \/ ForgetAny \/ ExchangeAny \/ CarryAny
Spec == Init /\ [][Next]_vars

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : y <= x
(* A range is the span of what it was given, whatever the order and route. *)
SpanOfGiven == \A i \in Names \ loose :
                  IF given[i] = {} THEN reg[i] = Unset
                  ELSE reg[i] = [lo |-> << Least(given[i]) >>, hi |-> << Most(given[i]) >>]
(* It never leaves its type, holds all it was given, and is then valid. *)
WithinType == \A i \in Names : \A b \in {reg[i].lo, reg[i].hi} : b # <<>> => b[1] \in Data(Type[i])
HoldsAll == \A i \in Names \ loose : \A x \in given[i] : Valid(reg[i]) /\ InRangeOK(reg[i], x, TRUE)
NoneOutside == \A i \in Names \ loose : \A x \in Around :
                  InRangeOK(reg[i], x, TRUE) => (given[i] # {} /\ \E y, z \in given[i] : y <= x /\ x <= z)
(* Merging is idempotent, commutative and associative. *)
MergeLaws == \A i, j \in Names : Type[i] = Type[j] =>
                /\ Merged(reg[i], reg[i]) = reg[i]
                /\ Merged(reg[i], reg[j]) = Merged(reg[j], reg[i])
                /\ \A k \in Names : Merged(Merged(reg[i], reg[j]), reg[k]) = Merged(reg[i], Merged(reg[j], reg[k]))
=============================================================================
