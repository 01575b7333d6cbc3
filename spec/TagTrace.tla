------------------------------- MODULE TagTrace -------------------------------
(* Judges the tags drawn in one process: the observable part of TagGen.          *)
EXTENDS Bytes, TraceRun
G == INSTANCE TagGen WITH Threads <- {}, MaxGens <- 0, MaxDraws <- 0, Atomic <- TRUE, shared <- 0, gens <- <<>>, pending <- <<>>, tags <- <<>>

TagsBad(rec) ==
  LET s == {rec.tags[j] : j \in 1..Len(rec.tags)} IN
  IF Cardinality(s) # rec.n THEN <<"repeated tag", CHOOSE t \in s : Cardinality({j \in 1..Len(rec.tags) : rec.tags[j] = t}) > 1>>
  ELSE LET bad == {j \in 1..Len(rec.sample) : ~G!Legal(rec.sample[j])} IN
       IF bad # {} THEN <<"illegal tag", rec.sample[CHOOSE j \in bad : TRUE]>>
       ELSE IF rec.readable # rec.n THEN <<"generated tags are not accepted as tags">>
       ELSE <<>>
Judge(rec) == CASE rec.k = "tags" -> TagsBad(rec) [] rec.k = "nop" -> <<>> [] OTHER -> <<"unknown record">>

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET v == Judge(Recs[i + 1]) IN
           IF v = <<>> THEN bad' = bad
           ELSE bad' = bad + 1 /\ PrintT("MISMATCH " \o ToString(i + 1) \o " " \o ToString(v))
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
