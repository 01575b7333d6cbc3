----------------------------- MODULE GrammarTrace ----------------------------
(* Judges recorded decodings and encodings of the real codecs by the grammar.  *)
EXTENDS Canon, TraceRun

F == INSTANCE Fragmentizer

DecBadP(rec, p) ==
  LET r == rec.r IN
  IF r.k = "panic" THEN <<"panic">>
  ELSE IF p.k = "ok" THEN
    IF r.k # "ok" THEN <<"a valid message was not accepted:", r.k>>
    ELSE IF r.c # p.i - 1 THEN <<"consumed", r.c, "not", p.i - 1>>
    ELSE IF ~SameV(r.v, p.v) THEN <<"value", r.v, "not", p.v>>
    ELSE <<>>
  ELSE IF p.k = "lit" THEN
    IF r.k # "lit" THEN <<"literal announcement not reported:", r.k>>
    ELSE IF ~LitOk(rec.m, rec.b, p.n, p.m, r) THEN <<"literal report", r>>
    ELSE <<>>
  ELSE IF r.k = "ok" THEN <<"an invalid or incomplete message was accepted as", r.v>>
  ELSE IF r.k = "lit" THEN <<"reported a literal where none is due">>
  ELSE <<>>

DecBad(rec) == DecBadP(rec, Parse(rec.m, rec.b))

(* every strict prefix of a valid message: Incomplete, or LiteralFound exactly   *)
(* behind an announcement                                                        *)
PreBad(rec) ==
  LET p == Parse(rec.m, rec.b) IN
  IF p.k # "ok" THEN <<>>
  ELSE LET n == p.i - 1
           at(q) == {x \in 1..Len(p.h) : p.h[x].p = q}
           badq == {q \in 0..(n - 1) :
                      LET r == rec.r[q + 1] IN
                      IF at(q) = {} THEN r # 0
                      ELSE \/ r # 1
                           \/ LET hh == p.h[CHOOSE x \in at(q) : TRUE] IN
                              ~\E y \in 1..Len(rec.l) : rec.l[y].p = q /\ LitOk(rec.m, rec.b, hh.n, hh.m, rec.l[y])}
       IN IF badq = {} THEN <<>> ELSE <<"prefixes judged wrongly (length, outcome):", {<<q, rec.r[q + 1]>> : q \in badq}>>

(* sentence -> value -> canonical spelling -> value *)
CanonBad(rec) ==
  LET p == Parse(rec.m, rec.b) IN
  IF p.k # "ok" THEN <<>>      \* not a sentence: other checks
  ELSE IF rec.e # p.e THEN <<"encoded as", rec.e, "not", p.e>>
  ELSE IF rec.r.k # "ok" THEN <<"canonical spelling is not decoded:", rec.r.k>>
  ELSE IF ~rec.r.e2 THEN <<"encoding is not stable">>
  ELSE LET f == Flatten(p.e) q == Parse(rec.m, f) IN
    IF rec.r.c # Len(f) THEN <<"canonical spelling not consumed">>
    ELSE IF q.k # "ok" \/ q.i # Len(f) + 1 \/ q.e # p.e THEN <<"SPEC: canonical spelling is not canonical", q>>
    ELSE <<>>

RoundBad(rec) ==        \* C07
  LET f == Flatten(rec.e) p == Parse(rec.m, f) IN
  IF p.k # "ok" THEN <<"encoded form is not in the grammar:", p.k>>
  ELSE IF p.i - 1 # Len(f) THEN <<"encoded form is more than one message">>
  ELSE IF rec.r.k # "ok" THEN <<"encoded form is not decoded:", rec.r.k>>
  ELSE IF rec.r.c # Len(f) THEN <<"encoded form not consumed">>
  ELSE IF ~SameCanon(p.v, rec.v) THEN <<"the encoded form means", p.v>>
  ELSE IF ~rec.r.same /\ ~SameCanon(rec.r.v, rec.v) THEN <<"decoded as", rec.r.v>>
  ELSE IF p.e # rec.e THEN <<"encoded form is not canonical">>
  ELSE <<>>

RECURSIVE Rest(_, _)
Rest(fs, j) == IF j > Len(fs) THEN <<>> ELSE fs[j].data \o Rest(fs, j + 1)
FragBad(rec) ==         \* C09
  LET fs == FragsOf(rec.e)
      n == Len(fs)
      lineText(j) == SubSeq(fs[j].data, 1, Len(fs[j].data) - 2)
      ann(j) == F!Announced(lineText(j))
      badj == {j \in 1..n :
                 IF fs[j].t = "line"
                 THEN \/ ~EndsCrLf(fs[j].data)
                      \/ j < n /\ fs[j + 1].t = "line"
                      \/ j < n /\ ~ann(j).some
                 ELSE \/ j = 1 \/ j = n
                      \/ (j > 1 /\ (fs[j - 1].t # "line" \/ ~EndsCrLf(fs[j - 1].data)
                                    \/ ann(j - 1) # [some |-> TRUE, nonsync |-> fs[j].m = "NonSync", len |-> NatDigits(Len(fs[j].data))]))}
  IN IF rec.d # Flatten(rec.e) THEN <<"dump differs from the fragments">>
     ELSE IF \E j \in 1..Len(rec.ds) : rec.ds[j] # Rest(fs, j + 1) THEN <<"dump of what remains differs from the remaining fragments">>
     ELSE IF badj # {} THEN <<"fragments not well-formed:", badj>>
     ELSE IF ann(n).some THEN <<>>       \* the free text itself looks like an announcement
     ELSE LET fr == F!Frame(rec.d) IN
       IF Len(fr) # n \/ (\E j \in 1..Len(fr) : fr[j].done # (j = Len(fr))) THEN <<"the splitter sees other fragments", Len(fr), "not", n>>
       ELSE IF \E j \in 1..n : fr[j].f.t # fs[j].t \/ fr[j].f.end - fr[j].f.start # Len(fs[j].data) THEN <<"the splitter cuts elsewhere">>
       ELSE <<>>

EncBad(rec) == IF rec.p = "C09" THEN FragBad(rec) ELSE RoundBad(rec)

(* any spelling of the keywords and names: C16 *)
CaseBadP(rec, p) ==
  LET b == DecBadP(rec, p) IN
  IF b # <<>> \/ p.k # "ok" THEN b
  ELSE IF rec.e # p.e THEN <<"not encoded in the canonical spelling:", rec.e>> ELSE <<>>
CaseBad(rec) == CaseBadP(rec, Parse(rec.m, rec.b))

(* the grammar of this build: C24. What the strict build accepts is accepted in   *)
(* every build, just as far; only codes it leaves unread may gain a meaning       *)
RECURSIVE HasOther(_, _)
OtherMark == <<"{", "type:">> \o C("'Other'")
HasOther(v, j) == j <= Len(v) /\ (At(v, j, OtherMark) \/ HasOther(v, j + 1))
ConfBad(rec) ==
  LET p == Parse(rec.m, rec.b)
      b == CaseBadP(rec, p) IN
  IF b # <<>> THEN b
  ELSE IF Config.x # Strict.x \/ rec.r.k # "ok" THEN <<>>
  ELSE LET st == ParseStrict(rec.m, rec.b) IN
       IF st.k # "ok" THEN <<>>
       ELSE IF st.i # p.i \/ (~SameV(st.v, p.v) /\ ~HasOther(st.v, 1)) THEN <<"SPEC: a quirk changes the meaning", st.v, p.v>>
       ELSE <<>>

(* never asks for more when nothing that follows could help: C23 *)
WaitBad(rec) ==
  IF rec.r.k \notin {"inc", "lit"} THEN <<>>
  ELSE LET p == Parse(rec.m, rec.b) IN
       IF p.k # rec.r.k THEN <<"asks for more:", rec.r.k, "but the input is", p.k>>
       ELSE LET fr == F!Frame(rec.b) IN      \* what the splitter holds to be complete is never waited for
            IF \E j \in 1..Len(fr) : fr[j].done THEN <<"asks for more behind a complete message">> ELSE <<>>

(* documents: C13. odd: values outside the encode/decode correspondence          *)
SerdeBad(rec) ==
  IF rec.r = "err" THEN IF rec.orig THEN <<"a serialised value is not accepted back">> ELSE <<>>
  ELSE IF ~rec.same THEN <<"serialising and deserialising changed the value to", rec.v>>
  ELSE IF rec.vs # rec.doc /\ ~SameV(rec.vs, rec.doc) THEN <<"a document was accepted as", rec.v>>
  ELSE IF rec.odd THEN <<>>
  ELSE LET f == Flatten(rec.e) p == Parse(rec.m, f) IN
       IF p.k # "ok" THEN <<"an accepted document is no message:", p.k>>
       ELSE IF p.i - 1 # Len(f) THEN <<"an accepted document is more than one message">>
       ELSE IF ~SameCanon(p.v, rec.v) THEN <<"an accepted document means", p.v>>
       ELSE <<>>

(* owned and borrowed forms: C20 *)
OwnBad(rec) ==
  IF rec.r = "different" THEN <<"owned and borrowed decoding differ">>
  ELSE IF ~rec.eq THEN <<"an owned form is not equal to the borrowed one">>
  ELSE IF rec.nd # 1 THEN <<"owned and borrowed forms print differently">>
  ELSE IF rec.r = "no" THEN <<>>
  ELSE IF Len(rec.vs) # 1 THEN <<"owned and borrowed forms have different content", rec.vs>>
  ELSE IF Len(rec.es) # 1 THEN <<"owned and borrowed forms are encoded differently", rec.es>>
  ELSE LET p == Parse(rec.m, rec.b) IN
       IF p.k # "ok" THEN <<"not in the grammar">>
       ELSE IF ~SameV(p.v, rec.vs[1]) \/ rec.c # p.i - 1 THEN <<"value", rec.vs[1], "not", p.v>>
       ELSE <<>>

(* what follows a message does not matter: C06 *)
ExtBad(rec) ==
  LET p == Parse(rec.m, rec.b) IN
  IF p.k # "ok" THEN IF rec.r.k = "ok" THEN <<"accepted", rec.r.v>> ELSE <<>>
  ELSE LET n == p.i - 1
           b == DecBad(rec)
           badx == {j \in 1..Len(rec.xs) : rec.xs[j].c # n \/ ~rec.xs[j].same \/ ~rec.xs[j].own} IN
       IF b # <<>> THEN b
       ELSE IF ~rec.own THEN <<"owned and borrowed decoding differ">>
       ELSE IF badx # {} THEN LET j == CHOOSE j \in badx : TRUE IN <<"depends on what follows:", rec.xs[j]>>
       ELSE <<>>
RECURSIVE MultiBad(_, _, _)
MultiBad(rec, off, j) ==
  LET p == Parse(rec.m, SubSeq(rec.b, off + 1, Len(rec.b))) IN
  IF j > Len(rec.ms) THEN
    IF p.k = "ok" THEN <<"message", j, "was not found", rec.end>> ELSE IF rec.end \in {"panic", "ok"} THEN <<rec.end>> ELSE <<>>
  ELSE IF p.k # "ok" THEN <<"message", j, "is none:", rec.ms[j].v>>
  ELSE IF rec.ms[j].c # p.i - 1 \/ ~SameV(rec.ms[j].v, p.v) THEN <<"message", j, "is", rec.ms[j]>>
  ELSE MultiBad(rec, off + p.i - 1, j + 1)

(* the name of a command is the (first) keyword of its wire form, without UID: C22 *)
WordAt(e, j) == LET q == CHOOSE q \in j..Len(e) : e[q] \in {32, CR} /\ \A x \in j..(q - 1) : e[x] \notin {32, CR} IN [w |-> SubSeq(e, j, q - 1), i |-> q + 1]
NameBad(rec) ==
  LET p == Parse(rec.m, rec.b) IN
  IF p.k # "ok" THEN <<>>
  ELSE LET tag == WordAt(p.e, 1)
           w == WordAt(p.e, tag.i)
           name == IF w.w = B("UID") THEN WordAt(p.e, w.i).w ELSE w.w IN
       IF rec.n # name \/ rec.n2 # name THEN <<"command is called", rec.n, rec.n2>> ELSE <<>>

Judge(rec) ==
  CASE rec.k = "dec" -> DecBad(rec)
    [] rec.k = "conf" -> ConfBad(rec)
    [] rec.k = "wait" -> WaitBad(rec)
    [] rec.k = "pre" -> PreBad(rec)
    [] rec.k = "canon" -> CanonBad(rec)
    [] rec.k = "enc" -> EncBad(rec)
    [] rec.k = "case" -> CaseBad(rec)
    [] rec.k = "serde" -> SerdeBad(rec)
    [] rec.k = "own" -> OwnBad(rec)
    [] rec.k = "name" -> NameBad(rec)
    [] rec.k = "ext" -> ExtBad(rec)
    [] rec.k = "multi" -> MultiBad(rec, 0, 1)
    [] rec.k = "deep" -> IF rec.n > 20 /\ rec.r \in {"ok", "lit", "panic"} THEN <<"nesting accepted:", rec.n, rec.form, rec.r>> ELSE <<>>
    [] rec.k = "panic" -> <<"panic">>
    [] OTHER -> <<>>

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET v == Judge(Recs[i + 1]) IN
           IF v = <<>> THEN bad' = bad
           ELSE bad' = bad + 1 /\ PrintT("MISMATCH " \o ToString(i + 1) \o " " \o ToString(v))
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
