----------------------------- MODULE SessionTrace ------------------------------
(* Recorded sessions of the real encoders, splitters and decoders on both sides  *)
(* of a connection, replayed step by step in Session.tla.                        *)
(*  msgs  the client's messages [k, b]: kind and a sentence of that kind; what   *)
(*        is sent must be its canonical spelling, fragment by fragment           *)
(*  evs   what happened:                                                         *)
(*   send f              the client sends fragment f                             *)
(*   dc n / ds n         n bytes arrive at the server / the client               *)
(*   sp f fb done exc r  the server's splitter reports fragment f with bytes fb; *)
(*                       behind an announcement the decoder says r               *)
(*   dec d w tag         the server decides on the announcement and sends w      *)
(*   fin r a w tag       decoding the complete message gives r; it sends w       *)
(*   say m b w           the server sends a greeting or data, sentence b, as w   *)
(*   cp f fb done r      the client's splitter reports f; the decoder says r     *)
EXTENDS Canon, TraceRun

Ses == INSTANCE Session

SameFrag(a, b) ==
  /\ a.t = b.t /\ a.start = b.start /\ a.end = b.end /\ a.crlf = b.crlf
  /\ a.ann.some = b.ann.some /\ a.ann.nonsync = b.ann.nonsync /\ Ses!EqDig(a.ann.len, b.ann.len)

Fol(ms, j) == IF j < Len(ms) THEN ms[j + 1].k ELSE "cmd"
RECURSIVE Msgs(_, _, _, _)
Msgs(ms, j, tag, acc) ==
  IF j > Len(ms) THEN acc
  ELSE LET p == Parse(ms[j].k, ms[j].b)
           t == IF ms[j].k = "cmd" THEN TagOfCmd(ms[j].b) ELSE tag IN
       Msgs(ms, j + 1, t, Append(acc, [k |-> ms[j].k, tag |-> t, ok |-> p.k = "ok" /\ p.i = Len(ms[j].b) + 1,
                                       v |-> Parse(ms[j].k, Flatten(p.e)).v,    \* sequence sets are sent in canonical order
                                       frs |-> FragsOf(p.e), fol |-> Fol(ms, j)]))

Gos == {B("+ Ready.\r\n"), B("+ YWJj\r\n"), B("+ \r\n")}
NoR(tag) == tag \o B(" NO refused\r\n")
DoneR(tag) == tag \o B(" OK done\r\n")

SpBad(ms, s, e) ==
  LET r == Ses!ServerStep(s) t == r.s f == r.f IN
  IF ~SameFrag(e.f, f) THEN <<"the server's splitter reports", e.f, "not", f>>
  ELSE IF f.t = "none" THEN <<>>
  ELSE IF e.fb # Ses!FragBytes(t.sv, f) THEN <<"the server's fragment is", e.fb>>
  ELSE IF e.done # Ses!Complete(t.sv) THEN <<"the server sees a message boundary", e.done>>
  ELSE IF e.exc # t.sv.exc THEN <<"the server's too-long flag is", e.exc>>
  ELSE IF f.ann.some THEN
    IF s.si > Len(ms) THEN <<"announcement after the last message">>
    ELSE IF ~t.sv.exc /\ ~(/\ e.r.k = "lit"
                           /\ LitOk("cmd", t.sv.buf, f.ann.len, IF f.ann.nonsync THEN "NonSync" ELSE "Sync", e.r)
                           /\ e.r.t = ms[s.si].tag)
         THEN <<"the announcement is decoded as", e.r>>
    ELSE <<>>
  ELSE <<>>

TagBad(ms, s, e) == ms[s.si].k = "cmd" /\ ~(e.tag.some /\ e.tag.tag = ms[s.si].tag)

DecideBad(ms, s, e) ==
  IF e.d \notin Ses!Decisions(s) THEN <<"SPEC: decision", e.d>>
  ELSE IF e.d = "skip" /\ TagBad(ms, s, e) THEN <<"tag of the refused command", e.tag>>
  ELSE IF e.d = "go" /\ e.w \notin Gos THEN <<"go-ahead encoded as", e.w>>
  ELSE IF e.d = "skip" /\ e.w # NoR(ms[s.si].tag) THEN <<"refusal encoded as", e.w>>
  ELSE <<>>

FinBad(ms, s, e) ==
  IF s.si > Len(ms) THEN <<"a message after the last">>
  ELSE LET m == ms[s.si] o == Ses!Outcome(s) IN
    IF e.r.k # o THEN <<"message", s.si, "is", e.r.k, "not", o>>
    ELSE IF o = "ok" /\ ~SameV(e.r.v, m.v) THEN <<"message", s.si, "arrives as", e.r.v, "not", m.v>>
    ELSE IF TagBad(ms, s, e) THEN <<"tag of the command", e.tag>>
    ELSE IF e.a \notin Ses!Answers(ms, s) THEN <<"SPEC: answer", e.a>>
    ELSE IF e.a = "go" /\ e.w \notin Gos THEN <<"go-ahead encoded as", e.w>>
    ELSE IF e.a = "no" /\ e.w # NoR(m.tag) THEN <<"refusal encoded as", e.w>>
    ELSE IF e.a = "done" /\ e.w # DoneR(m.tag) THEN <<"completion encoded as", e.w>>
    ELSE <<>>

CpBad(ms, s, e) ==
  LET r == Ses!ClientStep(s) t == r.s f == r.f IN
  IF ~SameFrag(e.f, f) THEN <<"the client's splitter reports", e.f, "not", f>>
  ELSE IF f.t = "none" THEN <<>>
  ELSE IF e.fb # Ses!FragBytes(t.cl, f) THEN <<"the client's fragment is", e.fb>>
  ELSE IF e.done # Ses!Complete(t.cl) THEN <<"the client sees a message boundary", e.done>>
  ELSE IF f.ann.some THEN IF e.r.k # "lit" \/ ~Ses!EqDig(e.r.n, f.ann.len) THEN <<"the announcement is decoded as", e.r>> ELSE <<>>
  ELSE IF f.t = "line" THEN
    LET x == s.said[s.heard + 1]
        p == Parse(IF x.k = "gre" THEN "gre" ELSE "resp", x.b) IN
    IF t.cl.buf # x.b THEN <<"the client takes for a reply", t.cl.buf>>
    ELSE IF e.r.k # "ok" THEN <<"the reply is not decoded:", e.r.k>>
    ELSE IF ~SameV(e.r.v, p.v) THEN <<"the reply arrives as", e.r.v, "not", p.v>>
    ELSE <<>>
  ELSE <<>>

(* judge event j and go on *)
RECURSIVE Walk(_, _, _, _, _)
Walk(ms, s, fin, evs, j) ==
  IF j > Len(evs) THEN
    IF fin \/ s.pend.some \/ ~Ses!Over(ms, s) THEN <<"the session does not end", [ci |-> s.ci, si |-> s.si, wait |-> s.wait, heard |-> s.heard, said |-> Len(s.said)]>>
    ELSE <<>>
  ELSE LET e == evs[j] IN
    CASE e.e = "send" ->
           IF ~Ses!CanSend(ms, s) THEN <<"SPEC: the client sends too early">>
           ELSE IF e.f # ms[s.ci].frs[s.cf] THEN <<"message", s.ci, "fragment", s.cf, "is sent as", e.f>>
           ELSE Walk(ms, Ses!Send(ms, s), fin, evs, j + 1)
      [] e.e = "dc" -> Walk(ms, Ses!DeliverC(s, e.n), fin, evs, j + 1)
      [] e.e = "ds" -> Walk(ms, Ses!DeliverS(s, e.n), fin, evs, j + 1)
      [] e.e = "sp" -> LET b == SpBad(ms, s, e) IN
           IF b # <<>> THEN b
           ELSE LET r == Ses!ServerStep(s) IN Walk(ms, r.s, r.f.t = "line" /\ ~r.f.ann.some, evs, j + 1)
      [] e.e = "dec" -> LET b == DecideBad(ms, s, e) IN
           IF b # <<>> THEN b ELSE Walk(ms, Ses!Decide(ms, s, e.d, ms[s.si].tag, e.w), fin, evs, j + 1)
      [] e.e = "fin" -> LET b == FinBad(ms, s, e) IN
           IF b # <<>> THEN b ELSE Walk(ms, Ses!Finish(ms, s, e.a, ms[s.si].tag, e.w), FALSE, evs, j + 1)
      [] e.e = "say" -> LET p == Parse(e.m, e.b) IN
           IF p.k # "ok" THEN <<"SPEC: not a sentence">>
           ELSE IF Flatten(p.e) # e.w THEN <<"data encoded as", e.w>>
           ELSE Walk(ms, Ses!Reply(s, IF e.m = "gre" THEN "gre" ELSE "data", <<>>, e.w), fin, evs, j + 1)
      [] e.e = "cp" -> LET b == CpBad(ms, s, e) IN
           IF b # <<>> THEN b
           ELSE LET r == Ses!ClientStep(s) IN
                Walk(ms, IF r.f.t = "line" /\ ~r.f.ann.some THEN Ses!Hear(ms, r.s) ELSE r.s, fin, evs, j + 1)
      [] e.e = "panic" -> <<"panic">>

SessBad(rec) ==
  LET ms == Msgs(rec.msgs, 1, <<>>, <<>>) IN
  IF \E j \in 1..Len(ms) : ~ms[j].ok THEN <<"SPEC: not a sentence">>
  ELSE Walk(ms, Ses!SInit(rec.limit), FALSE, rec.evs, 1)

Judge(rec) == IF rec.k = "sess" THEN SessBad(rec) ELSE <<>>

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET v == Judge(Recs[i + 1]) IN
           IF v = <<>> THEN bad' = bad
           ELSE bad' = bad + 1 /\ PrintT("MISMATCH " \o ToString(i + 1) \o " " \o ToString(v))
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
