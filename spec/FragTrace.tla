------------------------------ MODULE FragTrace ------------------------------
(* Recorded executions of the real Fragmentizer judged by Fragmentizer.tla.     *)
(*  "stream": a stream and the distinct observations over many schedules;       *)
(*            there must be exactly one, and it must be the framing.            *)
(*  "hist":   a history of operations with everything observable after each.    *)
EXTENDS Fragmentizer, TraceRun

SameFrag(a, b) ==
  /\ a.t = b.t /\ a.start = b.start /\ a.end = b.end /\ a.crlf = b.crlf
  /\ a.ann.some = b.ann.some /\ a.ann.nonsync = b.ann.nonsync /\ EqDig(a.ann.len, b.ann.len)

(* Index in the stream before the message that fragment j of fr belongs to. *)
RECURSIVE MsgBase(_, _)
MsgBase(fr, j) == fr[j].at - 1 - fr[j].f.start

Cap(limit, n) == IF limit = NoLimit THEN n ELSE Min2(limit, n)

StreamBad(rec) ==
  LET fr == Frame(rec.s)
      n == Len(fr)
      lim == rec.limit
      one(o) ==
        IF o.panic THEN "panic"
        ELSE IF Len(o.frags) # n THEN "number of fragments"
        ELSE IF \E j \in 1..n : ~SameFrag(o.frags[j].f, fr[j].f) THEN "fragment"
        ELSE IF \E j \in 1..n : o.frags[j].rng # <<fr[j].f.start, fr[j].f.end>> THEN "range"
        ELSE IF \E j \in 1..n : o.frags[j].done # fr[j].done THEN "message boundary"
        ELSE IF \E j \in 1..n :
                  LET b == MsgBase(fr, j)
                      c == Cap(lim, fr[j].f.end)
                  IN o.frags[j].b # SubSeq(rec.s, b + fr[j].f.start + 1, b + c) THEN "fragment bytes"
        ELSE IF \E j \in 1..n : o.frags[j].exc # (Cap(lim, fr[j].f.end) < fr[j].f.end) THEN "too-long flag"
        ELSE IF \E j \in 1..n : fr[j].done /\
                  LET b == MsgBase(fr, j) IN o.frags[j].msg # SubSeq(rec.s, b + 1, b + Cap(lim, fr[j].f.end))
             THEN "message bytes"
        ELSE \* after the last progress call (which reported nothing) all bytes are taken in
             LET endLast == IF n = 0 THEN 0 ELSE MsgBase(fr, n) + fr[n].f.end
                 b == IF n = 0 \/ fr[n].done THEN endLast ELSE MsgBase(fr, n)
                 len == Len(rec.s) - b
             IN IF o.rest # SubSeq(rec.s, b + 1, b + Cap(lim, len)) THEN "bytes of unfinished message"
                ELSE IF o.exc # (Cap(lim, len) < len) THEN "too-long flag of unfinished message"
                ELSE IF o.complete THEN "unfinished message reported complete"
                ELSE ""
      bad == {j \in 1..Len(rec.outs) : one(rec.outs[j].o) # ""}
  IN IF bad # {} THEN <<one(rec.outs[CHOOSE j \in bad : TRUE].o), rec.outs[CHOOSE j \in bad : TRUE].cuts>>
     ELSE IF Len(rec.outs) # 1 THEN <<"outcome depends on the schedule">>
     ELSE <<>>

Step(st, op) ==
  CASE op.op = "enq" -> [st |-> Enqueue(st, op.b), f |-> NoFrag]
    [] op.op = "prog" -> Progress(st)
    [] op.op = "poison" -> [st |-> Poison(st), f |-> NoFrag]
    [] op.op = "skip" -> [st |-> Skip(st), f |-> NoFrag]

(* Whole-message decoding relative to what the decoder itself says (cd). *)
DecodeBad(st, o) ==
  LET dm == o.dm cd == o.cd IN
  IF dm.k = "skip" THEN FALSE
  ELSE IF st.exc THEN ~(dm.k = "long" /\ dm.b = st.buf)
  ELSE IF st.poi THEN ~(dm.k = "poison" /\ dm.b = st.buf)
  ELSE IF cd.k = "err" THEN ~(dm.k = "fail" /\ dm.same)
  ELSE IF cd.rest = 0 THEN ~(dm.k = "ok" /\ dm.same)
  ELSE ~(dm.k = "rem" /\ dm.same /\ dm.b = SubSeq(st.buf, Len(st.buf) - cd.rest + 1, Len(st.buf)))

ObsBad(st, f, o) ==
  IF ~SameFrag(o.f, f) THEN "fragment"
  ELSE IF o.fb # (IF f.t = "none" THEN <<>> ELSE FragBytes(st, f)) THEN "fragment bytes"
  ELSE IF o.complete # Complete(st) THEN "message boundary"
  ELSE IF o.exc # st.exc THEN "too-long flag"
  ELSE IF o.poi # st.poi THEN "poisoned flag"
  ELSE IF o.msg # st.buf THEN "message bytes"
  ELSE LET t == TagOf(st.buf) IN
       IF o.tag.some # t.some \/ (t.some /\ o.tag.tag # t.tag) THEN "recovered tag"
       ELSE IF DecodeBad(st, o) THEN "decoded message"
       ELSE ""

RECURSIVE HistBad(_, _, _)
HistBad(st, ops, j) ==
  IF j > Len(ops) THEN <<>>
  ELSE LET r == Step(st, ops[j])
           b == ObsBad(r.st, r.f, ops[j].o)
       IN IF b # "" THEN <<b, "after step", j, ops[j].op>> ELSE HistBad(r.st, ops, j + 1)

Judge(rec) ==
  CASE rec.k = "stream" -> StreamBad(rec)
    [] rec.k = "hist" -> HistBad(FInit(rec.limit), rec.ops, 1)
    [] rec.k = "panic" -> <<"panic">>
    [] OTHER -> <<>>

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET v == Judge(Recs[i + 1]) IN
           IF v = <<>> THEN bad' = bad
           ELSE bad' = bad + 1 /\ PrintT("MISMATCH " \o ToString(i + 1) \o " " \o ToString(v))
Spec == Init /\ [][Next]_<<i, bad>>
NoMismatch == bad = 0
=============================================================================
