----------------------------- MODULE ValuesTrace -----------------------------
(* Judges recorded uses of the checked constructors, the representation rules   *)
(* of strings and mailboxes, and the tables of known names.                     *)
EXTENDS Constructors, TraceRun

Agrees(r, x) == IF r.k = "panic" THEN FALSE
                ELSE IF x.ok THEN r.k = "ok" /\ r.c = x.c /\ SameV(r.v, x.v)
                ELSE r.k = "err"
CtorBad(rec) ==
  LET x == Expected(rec.t, rec.b)
      bad == {j \in 1..Len(rec.rs) : ~Agrees(rec.rs[j], x)} IN
  IF bad = {} THEN <<>> ELSE LET j == CHOOSE j \in bad : TRUE IN <<rec.t, IF x.ok THEN "is legal:" ELSE "is illegal:", x.v, x.c, "but", rec.rs[j]>>

(* a mailbox from a string in any representation *)
MboxBad(rec) ==
  LET inbox == Upper(rec.b) = InboxUp IN
  IF rec.ab # rec.b THEN <<"content changed", rec.ab>>
  ELSE IF inbox THEN
    IF rec.v # InboxV THEN <<"INBOX was not recognised from", rec.rep>>
    ELSE IF rec.other \/ rec.serde THEN <<"MailboxOther accepts INBOX from", rec.rep, rec.other, rec.serde>>
    ELSE <<>>
  ELSE IF ~SameV(rec.v, Fill(OtherT, <<rec.a>>)) \/ rec.c # rec.b THEN <<"mailbox", rec.v, "from", rec.rep>>
  ELSE IF ~rec.other \/ ~SameV(rec.otherv, rec.a) THEN <<"MailboxOther rejects", rec.rep>>
  ELSE IF ~rec.serde \/ ~SameV(rec.serdev, rec.a) THEN <<"MailboxOther deserialisation rejects", rec.rep>>
  ELSE <<>>

CharBad(rec) ==
  LET legal == rec.cp < 128 /\ IsText(rec.cp)
      good(r) == IF legal THEN r.k = "ok" /\ r.v = StrToks(rec.b) /\ r.c = <<rec.cp>> ELSE r.k = "err" IN
  IF good(rec.r) /\ good(rec.s) /\ rec.val = legal THEN <<>> ELSE <<"quoted character", rec.cp, rec.r, rec.s, rec.val>>

VecBad(rec) ==
  LET bad == {j \in 1..Len(rec.r) : LET legal == Len(rec.items) >= rec.r[j].n IN
                rec.r[j].ok # legal \/ (legal /\ rec.r[j].v # rec.items)} IN
  IF bad = {} THEN <<>> ELSE <<"list", rec.r[CHOOSE j \in bad : TRUE]>>

YearOk(y) == y >= 0 /\ y <= 9999
Iso(y, m, d) == Pad(y, 4) \o <<45>> \o Pad(m, 2) \o <<45>> \o Pad(d, 2)
DateBad(rec) ==
  LET legal == YearOk(rec.y) IN
  IF rec.ok # legal \/ rec.sok # legal \/ rec.val # legal THEN <<"date: legal", legal, rec.ok, rec.sok, rec.val>>
  ELSE IF ~rec.back THEN <<"date changed">>
  ELSE IF legal /\ LET v == StrToks(Iso(rec.y, rec.m, rec.d)) IN rec.v # v \/ rec.sv # v THEN <<"date is", rec.v>>
  ELSE <<>>
Abs(n) == IF n < 0 THEN -n ELSE n
DateTimeBad(rec) ==
  LET legal == YearOk(rec.y) /\ rec.nanos = 0 /\ rec.off % 60 = 0
      off == Abs(rec.off) \div 60
      v == StrToks(Iso(rec.y, rec.m, rec.d) \o <<84>> \o Pad(rec.hh, 2) \o <<58>> \o Pad(rec.mi, 2) \o <<58>> \o Pad(rec.ss, 2)
             \o (IF off = 0 THEN <<90>> ELSE <<IF rec.off < 0 THEN 45 ELSE 43>> \o Pad(off \div 60, 2) \o <<58>> \o Pad(off % 60, 2))) IN
  IF rec.ok # legal \/ rec.val # legal THEN <<"date-time: legal", legal, rec.ok, rec.val>>
  ELSE IF ~rec.back THEN <<"date-time changed">>
  ELSE IF legal /\ (rec.v # v \/ ~rec.sok \/ rec.sv # v) THEN <<"date-time is", rec.v, rec.sok, rec.sv>>
  ELSE IF rec.sok /\ rec.off % 60 = 0 /\ ~legal THEN <<"illegal date-time deserialised", rec.sv>>
  ELSE <<>>

NzBad(rec) ==
  LET zero == rec.n = <<0>>
      is(r, type, wrap) == IF zero THEN ~r.ok ELSE r.ok /\ SameV(r.v, Fill(T(Ty(type, "$1")), <<NumToks(rec.n)>>)) IN
  IF is(rec.uidnext, "UidNext", "") /\ is(rec.uidvalidity, "UidValidity", "") /\ is(rec.unseen, "Unseen", "") /\ is(rec.expunge, "Expunge", "")
  THEN <<>> ELSE <<"number", rec.n, rec.uidnext, rec.uidvalidity, rec.unseen, rec.expunge>>

ContBad(rec) ==
  LET legal == NonEmptyIn("text", rec.b) /\ (rec.code \/ (rec.b[1] # 91 /\ ~B64Decode(rec.b).ok))
      v == Fill(T(Ty("Basic", "{'code':$1,'text':$2}")), <<IF rec.code THEN C(Plain("Alert")) ELSE <<"null">>, StrToks(rec.b)>>)
      good(r) == IF legal THEN r.k = "ok" /\ SameV(r.v, v) ELSE r.k = "err" IN
  IF ~good(rec.r) THEN <<"continuation request: legal", legal, rec.r>>
  ELSE IF ~good(rec.d) THEN <<"deserialised continuation request: legal", legal, rec.d>>
  ELSE <<>>

Judge(rec) ==
  CASE rec.k = "ctor" -> CtorBad(rec)
    [] rec.k = "mbox" -> MboxBad(rec)
    [] rec.k = "char" -> CharBad(rec)
    [] rec.k = "vecn" -> VecBad(rec)
    [] rec.k = "vecfrom" -> IF rec.v1 = <<7>> /\ rec.v2 = <<7, 8>> THEN <<>> ELSE <<"Vec1/Vec2 from items", rec>>
    [] rec.k = "date" -> DateBad(rec)
    [] rec.k = "datetime" -> DateTimeBad(rec)
    [] rec.k = "nz" -> NzBad(rec)
    [] rec.k = "cont" -> ContBad(rec)
    [] rec.k = "nop" -> <<>>
    [] OTHER -> <<"unknown record", rec.k>>

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET v == Judge(Recs[i + 1]) IN
           IF v = <<>> THEN bad' = bad
           ELSE bad' = bad + 1 /\ PrintT("MISMATCH " \o ToString(i + 1) \o " " \o ToString(v))
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
