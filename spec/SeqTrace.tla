------------------------------- MODULE SeqTrace -------------------------------
(* Judges recorded uses of sequence sets of the real code.                       *)
EXTENDS SequenceSet, TraceRun

ItBad(rec) ==
  LET nv == Naive(rec.set, rec.L, 1, rec.cap) IN
  IF ~IsIter(rec.iter, rec.set, rec.L, rec.cap) THEN <<"iteration gives", rec.iter, "not", Iter(rec.set, rec.L, rec.cap)>>
  ELSE IF rec.naive # nv THEN <<"naive iteration gives", rec.naive, "not", nv>>
  ELSE <<>>
NormBad(rec) ==
  LET n == NormalSet(rec.set) IN
  IF rec.norm # n THEN <<"normal form", rec.norm, "not", n>>
  ELSE IF rec.again # n THEN <<"normalising twice", rec.again>>
  ELSE IF rec.txt # SetTxt(n, 1) /\ rec.txt # SetTxt(rec.set, 1) THEN <<"encoded as", rec.txt>>
  ELSE IF rec.elnorm # [j \in 1..Len(rec.set) |-> ElOf(PairOf(rec.set[j]))] THEN <<"single elements normalised to", rec.elnorm>>
  ELSE <<>>
TxtBad(rec) ==
  LET ok == SetOk(rec.b) eok == ElOk(rec.b) nok == NumOk(rec.b) IN
  IF rec.set.ok # ok \/ (ok /\ rec.set.v # SetRead(rec.b)) THEN <<"set text: legal", ok, rec.set>>
  ELSE IF rec.el.ok # eok \/ (eok /\ rec.el.v # <<ElRead(rec.b)>>) THEN <<"element text: legal", eok, rec.el>>
  ELSE IF rec.num.ok # nok \/ (nok /\ rec.num.v # <<<<SeqNum(rec.b)>>>>) THEN <<"number text: legal", nok, rec.num>>
  ELSE <<>>
ConvBad(rec) ==
  LET x == FromRust(rec.form, rec.a, rec.b, rec.nz)
      bad == {j \in 1..Len(rec.rs) : rec.rs[j].ok # x.ok \/ (x.ok /\ rec.rs[j].v # <<x.el>>)} IN
  IF bad = {} THEN <<>> ELSE <<rec.ty, rec.form, "gives", rec.rs[CHOOSE j \in bad : TRUE], "not", x>>
ListBad(rec) ==
  LET ok == Len(rec.ns) > 0 /\ \A j \in 1..Len(rec.ns) : Fits(rec.ns[j])
      v == [j \in 1..Len(rec.ns) |-> <<AsId(rec.ns[j], rec.nz)>>]
      bad == {j \in 1..Len(rec.rs) : rec.rs[j].ok # ok \/ (ok /\ rec.rs[j].v # v)} IN
  IF bad = {} THEN <<>> ELSE <<"list of numbers gives", rec.rs[CHOOSE j \in bad : TRUE]>>
OrdBad(rec) ==
  IF (rec.r = "lt") # Below(rec.a, rec.b) \/ (rec.r = "gt") # Below(rec.b, rec.a) THEN <<"order is", rec.r>> ELSE <<>>
ExpBad(rec) == IF rec.r # Expand(rec.x, rec.L) \/ rec.n # Expand(rec.x, MaxU32) THEN <<"expanded to", rec.r, rec.n>> ELSE <<>>

Judge(rec) ==
  CASE rec.k = "it" -> ItBad(rec)
    [] rec.k = "norm" -> NormBad(rec)
    [] rec.k = "txt" -> TxtBad(rec)
    [] rec.k = "conv" -> ConvBad(rec)
    [] rec.k = "list" -> ListBad(rec)
    [] rec.k = "ord" -> OrdBad(rec)
    [] rec.k = "exp" -> ExpBad(rec)
    [] rec.k = "panic" -> <<"panic", rec.s>>
    [] rec.k = "nop" -> <<>>
    [] OTHER -> <<"unknown record", rec.k>>

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET v == Judge(Recs[i + 1]) IN
           IF v = <<>> THEN bad' = bad
           ELSE bad' = bad + 1 /\ PrintT("MISMATCH " \o ToString(i + 1) \o " " \o ToString(v))
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
