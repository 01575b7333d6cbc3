------------------------------ MODULE BuildTrace ------------------------------
(* Judges recorded uses of builders and text helpers.                           *)
EXTENDS Builders, TraceRun

Judge(rec) ==
  CASE rec.k = "build" -> BuildBad(rec)
    [] rec.k = "esc" -> EscBad(rec)
    [] rec.k = "show" -> ShowBad(rec)
    [] rec.k = "ind" -> IndBad(rec)
    [] rec.k = "macro" -> MacroBad(rec)
    [] rec.k = "sel" -> SelectabilityBad(rec)
    [] rec.k = "nop" -> <<>>
    [] OTHER -> <<"unknown record", rec.k>>

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET v == Judge(Recs[i + 1]) IN
           IF v = <<>> THEN bad' = bad
           ELSE bad' = bad + 1 /\ PrintT("MISMATCH " \o ToString(i + 1) \o " " \o ToString(v))
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
