----------------------------- MODULE Integrity -----------------------------
(***************************************************************************)
(* Checksums stored in source files (C25).                                 *)
(*                                                                         *)
(* A FITS unit may store the sum of its data (DATASUM) and an encoded      *)
(* complement (CHECKSUM) that makes the sum of the whole unit come out as  *)
(* all ones.  Sums are of 32 bit words in ones' complement.  A word is     *)
(* held in two halves, << high, low >>.                                    *)
(*                                                                         *)
(* A unit has                                                              *)
(*   head, data   sequences of words                                       *)
(*   datasum      << high, low >>, or << >> where none is stored           *)
(*   checksum     TRUE where one is stored (it is part of head)            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Half == 65536

(* Add the carries until both halves fit; a carry out of the high half      *)
(* comes back in at the low end.                                            *)
RECURSIVE Settle(_, _)
Settle(hi, lo) == IF hi < Half /\ lo < Half THEN << hi, lo >>
                  ELSE LET h == hi + (lo \div Half)
                       IN Settle(h % Half, (lo % Half) + (h \div Half))

Highs(ws) == FoldSeq(LAMBDA w, a : a + w[1], 0, ws)
Lows(ws) == FoldSeq(LAMBDA w, a : a + w[2], 0, ws)
Sum(ws) == Settle(Highs(ws), Lows(ws))
Plus(a, b) == Settle(a[1] + b[1], a[2] + b[2])

Zero == << 0, 0 >>
Ones == << Half - 1, Half - 1 >>

DataWrong(u) == u.datasum # << >> /\ Sum(u.data) # u.datasum
UnitWrong(u) == u.checksum /\ Plus(Sum(u.head), Sum(u.data)) \notin {Zero, Ones}
Spoiled(u) == DataWrong(u) \/ UnitWrong(u)
Vouched(u) == ~Spoiled(u)
=============================================================================
