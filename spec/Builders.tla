------------------------------- MODULE Builders -------------------------------
(* The builders of commands and responses, and the text helpers.                *)
(*                                                                              *)
(* A builder is a template over its arguments. An argument is a finished value  *)
(* ("val"), a non-empty list ("list1"), a non-zero number ("nz"), or a byte     *)
(* string that the checked constructor of its type converts. A builder succeeds *)
(* iff every argument converts, and then puts each where the template says.     *)
EXTENDS Constructors

Bld(t, errs) == [t |-> T(t), errs |-> errs]
Cb(type, body, errs) == Bld(Ty(type, body), errs)
N1 == <<"">>
N2 == <<"", "">>
N3 == <<"", "", "">>
N4 == <<"", "", "", "">>
N5 == <<"", "", "", "", "">>
StTagged(kind) == Ty("Tagged", "{'tag':$1,'body':{'kind':'" \o kind \o "','code':$2,'text':$3}}")
StUntagged(kind) == Ty("Untagged", "{'kind':'" \o kind \o "','code':$1,'text':$2}")
Gre(kind) == "{'kind':'" \o kind \o "','code':$1,'text':$2}"

Builder == [
  command_new |-> Bld("{'tag':$1,'body':$2}", N2),
  tag |-> Bld("{'tag':$2,'body':$1}", N2),
  authenticate |-> Cb("Authenticate", "{'mechanism':$1,'initial_response':null}", N1),
  authenticate_with_ir |-> Cb("Authenticate", "{'mechanism':$1,'initial_response':$2}", N2),
  login |-> Cb("Login", "{'username':$1,'password':$2}", <<"Username", "Password">>),
  select |-> Cb("Select", "{'mailbox':$1,'parameters':[]}", N1),
  examine |-> Cb("Examine", "{'mailbox':$1,'parameters':[]}", N1),
  create |-> Cb("Create", "{'mailbox':$1}", N1),
  delete |-> Cb("Delete", "{'mailbox':$1}", N1),
  rename |-> Cb("Rename", "{'from':$1,'to':$2}", <<"From", "To">>),
  subscribe |-> Cb("Subscribe", "{'mailbox':$1}", N1),
  unsubscribe |-> Cb("Unsubscribe", "{'mailbox':$1}", N1),
  list |-> Cb("List", "{'reference':$1,'mailbox_wildcard':$2}", <<"Reference", "Mailbox">>),
  lsub |-> Cb("Lsub", "{'reference':$1,'mailbox_wildcard':$2}", <<"Reference", "Mailbox">>),
  status |-> Cb("Status", "{'mailbox':$1,'item_names':$2}", N2),
  append |-> Cb("Append", "{'mailbox':$1,'flags':$2,'date':$3,'message':{'type':'Literal','content':$4}}", <<"Mailbox", "", "", "Data">>),
  search |-> Cb("Search", "{'charset':$1,'criteria':$2,'uid':$3}", N3),
  fetch_macro |-> Cb("Fetch", "{'sequence_set':$1,'macro_or_item_names':{'type':'Macro','content':$2},'uid':$3,'modifiers':[]}", N3),
  fetch_items |-> Cb("Fetch", "{'sequence_set':$1,'macro_or_item_names':{'type':'MessageDataItemNames','content':$2},'uid':$3,'modifiers':[]}", N3),
  store |-> Cb("Store", "{'sequence_set':$1,'kind':$2,'response':$3,'flags':$4,'uid':$5,'modifiers':[]}", N5),
  copy |-> Cb("Copy", "{'sequence_set':$1,'mailbox':$2,'uid':$3}", <<"Sequence", "Mailbox", "">>),
  move |-> Cb("Move", "{'sequence_set':$1,'mailbox':$2,'uid':$3}", <<"Sequence", "Mailbox", "">>),
  compress |-> Cb("Compress", "{'algorithm':$1}", N1),
  enable |-> Cb("Enable", "{'capabilities':$1}", N1),
  namespace |-> Bld(Plain("Namespace"), <<>>),
  unselect |-> Bld(Plain("Unselect"), <<>>),
  get_quota |-> Cb("GetQuota", "{'root':$1}", N1),
  get_quota_root |-> Cb("GetQuotaRoot", "{'mailbox':$1}", N1),
  set_quota |-> Cb("SetQuota", "{'root':$1,'quotas':$2}", <<"Root", "QuotaSet">>),
  quota_set_new |-> Bld("{'resource':$1,'limit':$2}", N2),
  quota_get_new |-> Bld("{'resource':$1,'usage':$2,'limit':$3}", N3),
  namespace_new |-> Bld("{'prefix':$1,'delimiter':$2,'extensions':[]}", N2),
  continue |-> Cb("Continue", "$1", N1),
  greeting_new |-> Bld("{'kind':$1,'code':$2,'text':$3}", N3),
  greeting_ok |-> Bld(Gre("Ok"), N2),
  greeting_preauth |-> Bld(Gre("PreAuth"), N2),
  greeting_bye |-> Bld(Gre("Bye"), N2),
  status_tagged_new |-> Bld(Ty("Tagged", "{'tag':$1,'body':{'kind':$2,'code':$3,'text':$4}}"), N4),
  status_untagged_new |-> Bld(Ty("Untagged", "{'kind':$1,'code':$2,'text':$3}"), N3),
  status_tagged_ok |-> Bld(StTagged("Ok"), N3), status_untagged_ok |-> Bld(StUntagged("Ok"), N2),
  status_tagged_no |-> Bld(StTagged("No"), N3), status_untagged_no |-> Bld(StUntagged("No"), N2),
  status_tagged_bad |-> Bld(StTagged("Bad"), N3), status_untagged_bad |-> Bld(StUntagged("Bad"), N2),
  status_bye |-> Bld(Ty("Bye", "{'code':$1,'text':$2}"), N2),
  data_capability |-> Cb("Capability", "$1", N1),
  data_expunge |-> Cb("Expunge", "$1", N1),
  data_fetch |-> Cb("Fetch", "{'seq':$1,'items':$2}", <<"SeqOrUid", "InvalidItems">>),
  data_namespace |-> Cb("Namespace", "{'personal':$1,'other':$2,'shared':$3}", N3),
  data_quota |-> Cb("Quota", "{'root':$1,'quotas':$2}", <<"Root", "Quotas">>),
  data_quota_root |-> Cb("QuotaRoot", "{'mailbox':$1,'roots':$2}", <<"Mailbox", "Roots">>),
  ccr_base64 |-> Cb("Base64", "$1", N1),
  code_badcharset |-> Cb("BadCharset", "{'allowed':$1}", N1),
  code_capability |-> Cb("Capability", "$1", N1),
  code_permanentflags |-> Cb("PermanentFlags", "$1", N1),
  code_uidnext |-> Cb("UidNext", "$1", N1),
  code_uidvalidity |-> Cb("UidValidity", "$1", N1),
  code_unseen |-> Cb("Unseen", "$1", N1),
  searchkey_uid |-> Cb("Uid", "$1", N1),
  flag_fetch |-> Cb("Flag", "$1", N1),
  flag_perm |-> Cb("Flag", "$1", N1),
  flag_keyword |-> Cb("Keyword", "$1", N1),
  attrflag_keyword |-> Cb("Keyword", "$1", N1),
  entry |-> Bld("$1", N1)
]

ArgOf(a) ==
  CASE a.t = "val" -> [ok |-> TRUE, v |-> a.v]
    [] a.t = "bytes" -> [ok |-> TRUE, v |-> ByteArr(a.b)]
    [] a.t = "list1" -> [ok |-> a.n >= 1, v |-> a.v]
    [] a.t = "nz" -> [ok |-> a.d # <<0>>, v |-> NumToks(a.d)]
    [] OTHER -> LET x == Expected(a.t, a.b) IN [ok |-> x.ok, v |-> x.v]

BuildBad(rec) ==
  LET b == Builder[rec.n]
      as == [j \in 1..Len(rec.as) |-> ArgOf(rec.as[j])]
      wrong == {j \in 1..Len(as) : ~as[j].ok} IN
  IF rec.r.k = "panic" THEN <<rec.n, "panicked">>
  ELSE IF wrong # {} THEN
    IF rec.r.k # "err" THEN <<rec.n, "accepted an illegal argument", wrong>>
    ELSE IF rec.r.e \notin {b.errs[j] : j \in wrong} THEN <<rec.n, "blames", rec.r.e, "but illegal are", wrong>>
    ELSE <<>>
  ELSE IF rec.r.k # "ok" THEN <<rec.n, "rejected legal arguments, blaming", rec.r.e>>
  ELSE LET v == Fill(b.t, [j \in 1..Len(as) |-> as[j].v]) IN
       IF ~SameV(rec.r.v, v) THEN <<rec.n, "built", rec.r.v, "not", v>>
       ELSE IF \E j \in 1..Len(rec.acc) : ~SameV(rec.acc[j][2], as[rec.acc[j][1]].v) THEN <<rec.n, "accessor returns another argument", rec.acc>>
       ELSE <<>>

--------------------------------------------------------------------------------
(* Text helpers.                                                                *)

RECURSIVE Escape(_)
Escape(s) == IF Len(s) = 0 THEN <<>>
             ELSE (IF IsQuotedSpecial(s[1]) THEN <<BSL, s[1]>> ELSE <<s[1]>>) \o Escape(Tail(s))
RECURSIVE Unescape(_)       \* of an escaped string
Unescape(s) == IF Len(s) = 0 THEN <<>>
               ELSE IF s[1] = BSL THEN <<s[2]>> \o Unescape(SubSeq(s, 3, Len(s)))
               ELSE <<s[1]>> \o Unescape(Tail(s))
HexDig(n) == IF n < 10 THEN 48 + n ELSE 87 + n
ShowByte(b) == CASE b = 9 -> B("\\t") [] b = LF -> B("\\n") [] b = CR -> B("\\r")
                 [] b = DQ -> <<BSL, DQ>> [] b = BSL -> <<BSL, BSL>>
                 [] b >= 32 /\ b <= 126 /\ b # DQ /\ b # BSL -> <<b>>
                 [] OTHER -> <<BSL, 120, HexDig(b \div 16), HexDig(b % 16)>>
ShowTab == [j \in 1..256 |-> ShowByte(j - 1)]
Show(s) == Flat([j \in 1..Len(s) |-> ShowTab[s[j] + 1]])

(* no two bytes are shown alike, nor is one a prefix of another: unambiguous *)
ASSUME \A a, b \in 1..256 : a # b => LET x == ShowTab[a] y == ShowTab[b] IN ~(Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x)

EscBad(rec) ==
  LET e == Escape(rec.b) IN
  IF Unescape(e) # rec.b THEN <<"SPEC: unescape">>
  ELSE IF rec.e # e THEN <<"escaped as", rec.e, "not", e>>
  ELSE IF rec.u # rec.b THEN <<"unescaped to", rec.u>>
  ELSE <<>>
ShowBad(rec) == IF rec.e # Show(rec.b) THEN <<"shown as", rec.e, "not", Show(rec.b)>> ELSE <<>>

IsChar(b) == b >= 1 /\ b <= 127
Indicator == [char |-> ClsTab(IsChar), ctl |-> ClsTab(IsCtl), quoted_specials |-> ClsTab(IsQuotedSpecial), astring_char |-> Cls["astring"],
              atom_char |-> Cls["atom"], atom_specials |-> ClsTab(IsAtomSpecial), list_wildcards |-> ClsTab(IsListWildcard),
              resp_specials |-> ClsTab(IsRespSpecial), char8 |-> [j \in 1..256 |-> j > 1], text_char |-> Cls["text"], list_char |-> Cls["list"]]
IndBad(rec) == LET badb == {j \in 0..255 : rec.r[j + 1] # Indicator[rec.n][j + 1]} IN
               IF badb = {} THEN <<>> ELSE <<"indicator", rec.n, "is wrong on", badb>>

(* RFC 3501, 6.4.5 *)
MacroItems == [Fast |-> <<"Flags", "InternalDate", "Rfc822Size">>,
               All |-> <<"Flags", "InternalDate", "Rfc822Size", "Envelope">>,
               Full |-> <<"Flags", "InternalDate", "Rfc822Size", "Envelope", "Body">>]
ItemV == [j \in {"Flags", "InternalDate", "Rfc822Size", "Envelope", "Body"} |-> C(Plain(j))]
MacroBad(rec) == LET xs == MacroItems[rec.n]
                     items == [j \in 1..Len(xs) |-> ItemV[xs[j]]] IN
                 IF ~(Len(rec.items) = Len(items) /\ \A j \in 1..Len(items) : SameV(rec.items[j], items[j])) THEN <<"macro", rec.n, "expands to", rec.items>>
                 ELSE IF rec.d # Upper(B(rec.n)) THEN <<"macro", rec.n, "is called", rec.d>>
                 ELSE <<>>
SelectabilityBad(rec) ==
  LET x == Expected("nameattr", rec.b)
      sel == \E j \in 1..Len(AttrTab) : AttrTab[j].n \in {Upper(B("Noselect")), Upper(B("Marked")), Upper(B("Unmarked"))} /\ Upper(rec.b) = AttrTab[j].n IN
  IF x.ok # rec.ok THEN <<"attribute">> ELSE IF x.ok /\ rec.r # sel THEN <<"selectability", rec.r>> ELSE <<>>
=============================================================================
