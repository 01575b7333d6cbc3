----------------------------- MODULE SecretTrace ------------------------------
(* Judges recorded debug output of secret-carrying values.                       *)
EXTENDS Redaction, TraceRun

ObsBad(rec) == LET l == Leaks(rec.xs) IN
               IF l = {} THEN <<>> ELSE LET j == CHOOSE j \in l : TRUE IN <<rec.what, "depends on the secret", rec.xs[j].o>>
SecBad(rec) ==
  IF rec.eq # (rec.a = rec.b) \/ rec.ne = (rec.a = rec.b) THEN <<"comparison of secrets", rec.eq, rec.ne>>
  ELSE IF ~rec.clone \/ rec.content # rec.a \/ rec.cloned # rec.a \/ rec.stat # rec.a THEN <<"content of a secret changed">>
  ELSE IF rec.a = rec.b /\ ~rec.heq THEN <<"hash of a secret">>
  ELSE IF rec.ser # ByteArr(rec.a) THEN <<"serialised secret", rec.ser>>
  ELSE <<>>
Judge(rec) == CASE rec.k = "obs" -> ObsBad(rec)
                [] rec.k = "sec" -> SecBad(rec)
                [] rec.k = "nop" -> <<>>
                [] OTHER -> <<"unknown record">>

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET v == Judge(Recs[i + 1]) IN
           IF v = <<>> THEN bad' = bad
           ELSE bad' = bad + 1 /\ PrintT("MISMATCH " \o ToString(i + 1) \o " " \o ToString(v))
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
