----------------------------- MODULE ImapGrammar -----------------------------
(* The IMAP4rev1 message grammar (RFC 3501 and the extensions imap-codec        *)
(* implements, with its documented leniencies), as data for Peg.                *)
(* The grammar depends on how the crate is built: c.q are the quirks (leniencies)*)
(* and c.x the extensions switched on.                                           *)
EXTENDS Peg, IOUtils

AllExt == {"starttls", "condstore", "id", "login_referrals", "mailbox_referrals", "metadata", "namespace", "utf8"}
StdQuirks == {"missing_text", "rectify_numbers", "excessive_space_quota_resource", "spaces_between_addresses", "trailing_space_status",
              "trailing_space_capability", "trailing_space_id", "trailing_space_search", "empty_continue_req", "body_fld_enc_nil_to_empty",
              "always_normalize_sequence_sets"}
AllQuirks == StdQuirks \cup {"crlf_relaxed", "id_empty_to_nil"}
Full == [q |-> StdQuirks, x |-> AllExt]         \* all extensions, the usual quirks
Strict == [q |-> {}, x |-> AllExt]
Relaxed == [q |-> AllQuirks, x |-> AllExt]
Plain0 == [q |-> StdQuirks, x |-> {}]           \* the crate as it comes
Bare == [q |-> {}, x |-> {}]
Only(q) == [q |-> {q}, x |-> AllExt]            \* one quirk
Lone(x) == [q |-> {}, x |-> {x}]                \* one extension
Config == IF "VERIF_CONFIG" \notin DOMAIN IOEnv THEN Full
          ELSE CASE IOEnv.VERIF_CONFIG = "strict" -> Strict
                 [] IOEnv.VERIF_CONFIG = "relaxed" -> Relaxed
                 [] IOEnv.VERIF_CONFIG = "plain" -> Plain0
                 [] IOEnv.VERIF_CONFIG = "bare" -> Bare
                 [] \E q \in AllQuirks : IOEnv.VERIF_CONFIG = "only-" \o q -> Only(CHOOSE q \in AllQuirks : IOEnv.VERIF_CONFIG = "only-" \o q)
                 [] \E x \in AllExt : IOEnv.VERIF_CONFIG = "lone-" \o x -> Lone(CHOOSE x \in AllExt : IOEnv.VERIF_CONFIG = "lone-" \o x)
                 [] IOEnv.VERIF_CONFIG = "full" -> Full
When(b, xs) == IF b THEN xs ELSE <<>>

K(s) == [k |-> "kw", b |-> B(s), ci |-> TRUE, e |-> B(s), v |-> <<>>]
KV(s, tpl) == [k |-> "kw", b |-> B(s), ci |-> TRUE, e |-> B(s), v |-> C(tpl)]
KE(s, e, tpl) == [k |-> "kw", b |-> B(s), ci |-> TRUE, e |-> B(e), v |-> C(tpl)]
X(s) == [k |-> "kw", b |-> B(s), ci |-> FALSE, e |-> B(s), v |-> <<>>]
XV(s, tpl) == [k |-> "kw", b |-> B(s), ci |-> FALSE, e |-> B(s), v |-> C(tpl)]
XEV(s, e, tpl) == [k |-> "kw", b |-> B(s), ci |-> FALSE, e |-> B(e), v |-> C(tpl)]
XE(s, e) == [k |-> "kw", b |-> B(s), ci |-> FALSE, e |-> B(e), v |-> <<>>]
None == [k |-> "none"]
S(xs, tpl) == [k |-> "seq", xs |-> xs, t |-> T(tpl)]
S0(xs) == [k |-> "seq", xs |-> xs, t |-> <<>>]
A(xs) == [k |-> "alt", xs |-> SelectSeq(xs, LAMBDA x : x.k # "none")]
Opt(x, tpl) == [k |-> "opt", x |-> x, v |-> C(tpl), e |-> <<>>]
OptE(x, tpl, e) == [k |-> "opt", x |-> x, v |-> C(tpl), e |-> B(e)]
Many(x, min) == [k |-> "many", x |-> x, sep |-> None, min |-> min, list |-> TRUE]
ManyS(x, sep, min) == [k |-> "many", x |-> x, sep |-> sep, min |-> min, list |-> TRUE]
Rep(x, min) == [k |-> "many", x |-> x, sep |-> None, min |-> min, list |-> FALSE]
R(r) == [k |-> "ref", r |-> r, d |-> 0]
RD(r, d) == [k |-> "ref", r |-> r, d |-> d]
Deep(x) == [k |-> "deep", x |-> x]
Map(x, f) == [k |-> "map", x |-> x, f |-> f]
Cl(set, min) == [k |-> "cls", set |-> set, min |-> min, as |-> "str"]
ClB(set, min) == [k |-> "cls", set |-> set, min |-> min, as |-> "bytes"]
Nm(bits, nz) == [k |-> "num", bits |-> bits, nz |-> nz]
Dg(lo, hi) == [k |-> "digs", lo |-> lo, hi |-> hi]
Row(name, tpl) == [n |-> Upper(B(name)), v |-> C(tpl), e |-> B(name)]
Plain(type) == "{'type':'" \o type \o "'}"
RowT(name, type) == Row(name, Plain(type))
Name(tab, o) == [k |-> "name", tab |-> tab, fam |-> <<>>, o |-> T(o)]
NameF(tab, fam, o) == [k |-> "name", tab |-> tab, fam |-> fam, o |-> T(o)]
Fam(p, closed, tab, o, t) == [p |-> B(p), closed |-> closed, tab |-> tab, o |-> T(o), t |-> T(t)]
Ty(type, body) == "{'type':'" \o type \o "','content':" \o body \o "}"
OtherC == Ty("Other", "$1")
Sp == X(" ")
CrLfS == X("\r\n")
CrLfR == A(<<X("\r\n"), XE("\n", "\r\n")>>)
CrLf(c) == IF "crlf_relaxed" \in c.q THEN CrLfR ELSE CrLfS
Peek(x, tpl, e) == [k |-> "peek", x |-> x, v |-> C(tpl), e |-> B(e)]
As(x, tpl, e) == [k |-> "as", x |-> x, v |-> C(tpl), e |-> B(e)]
LitN(c, t) == [k |-> "lit", lit8 |-> FALSE, t |-> T(t), lf |-> "crlf_relaxed" \in c.q]
Lit8N(c, t) == [k |-> "lit", lit8 |-> TRUE, t |-> T(t), lf |-> "crlf_relaxed" \in c.q]
QuotedN(t) == [k |-> "quoted", utf8 |-> FALSE, t |-> T(t)]
UQuotedN(t) == [k |-> "quoted", utf8 |-> TRUE, t |-> T(t)]
Ext(c, n, x) == IF n \in c.x THEN x ELSE None    \* an alternative of an extension
Paren(x) == S(<<X("("), x, X(")")>>, "$2")
SpThen(x) == S(<<Sp, x>>, "$2")
Cmd(name, xs, tpl) == S(<<K(name)>> \o xs, tpl)

TrailingSp(c, q) == When(q \in c.q, <<Opt(XE(" ", ""), "")>>)
LitBody == "{'data':$1,'mode':$2}"

AuthTab == <<RowT("PLAIN", "Plain"), RowT("LOGIN", "Login"), RowT("OAUTHBEARER", "OAuthBearer"), RowT("XOAUTH2", "XOAuth2"),
             RowT("SCRAM-SHA-1", "ScramSha1"), RowT("SCRAM-SHA-1-PLUS", "ScramSha1Plus"), RowT("SCRAM-SHA-256", "ScramSha256"),
             RowT("SCRAM-SHA-256-PLUS", "ScramSha256Plus"), RowT("SCRAM-SHA3-512", "ScramSha3_512"), RowT("SCRAM-SHA3-512-PLUS", "ScramSha3_512Plus")>>
ThreadTab == <<RowT("ORDEREDSUBJECT", "OrderedSubject"), RowT("REFERENCES", "References")>>
SortTab == <<RowT("DISPLAY", "Display")>>
ResTab == <<RowT("STORAGE", "Storage"), RowT("MESSAGE", "Message"), RowT("MAILBOX", "Mailbox"), RowT("ANNOTATION-STORAGE", "AnnotationStorage")>>
FlagTab == <<RowT("Answered", "Answered"), RowT("Deleted", "Deleted"), RowT("Draft", "Draft"), RowT("Flagged", "Flagged"), RowT("Seen", "Seen")>>
AttrTab == <<RowT("Noinferiors", "Noinferiors"), RowT("Noselect", "Noselect"), RowT("Marked", "Marked"), RowT("Unmarked", "Unmarked")>>
CapTab == <<RowT("IMAP4REV1", "Imap4Rev1"), RowT("LOGINDISABLED", "LoginDisabled"), RowT("STARTTLS", "StartTls"), RowT("IDLE", "Idle"),
            RowT("MAILBOX-REFERRALS", "MailboxReferrals"), RowT("LOGIN-REFERRALS", "LoginReferrals"), RowT("SASL-IR", "SaslIr"),
            RowT("ENABLE", "Enable"), RowT("QUOTA", "Quota"), RowT("QUOTASET", "QuotaSet"), RowT("LITERAL+", "LiteralPlus"),
            RowT("LITERAL-", "LiteralMinus"), RowT("MOVE", "Move"), RowT("ID", "Id"), Row("SORT", "{'type':'Sort','content':null}"),
            RowT("METADATA", "Metadata"), RowT("METADATA-SERVER", "MetadataServer"), RowT("BINARY", "Binary"), RowT("UNSELECT", "Unselect"),
            RowT("CONDSTORE", "CondStore"), RowT("QRESYNC", "QResync"), RowT("UIDPLUS", "UidPlus"), RowT("NAMESPACE", "Namespace"),
            Row("UTF8=ACCEPT", "{'type':'Utf8','content':{'type':'Accept'}}"), Row("UTF8=ONLY", "{'type':'Utf8','content':{'type':'Only'}}")>>
CapFam == <<Fam("AUTH=", FALSE, AuthTab, OtherC, "{'type':'Auth','content':$1}"),
            Fam("COMPRESS=", TRUE, <<RowT("DEFLATE", "Deflate")>>, OtherC, "{'type':'Compress','content':{'algorithm':$1}}"),
            Fam("QUOTA=RES-", FALSE, ResTab, OtherC, "{'type':'QuotaRes','content':$1}"),
            Fam("SORT=", FALSE, SortTab, OtherC, "{'type':'Sort','content':$1}"),
            Fam("THREAD=", FALSE, ThreadTab, OtherC, "{'type':'Thread','content':$1}")>>
EnableTab == <<RowT("CONDSTORE", "CondStore"), RowT("METADATA", "Metadata"), RowT("METADATA-SERVER", "MetadataServer"),
               Row("UTF8=ACCEPT", "{'type':'Utf8','content':{'type':'Accept'}}"), Row("UTF8=ONLY", "{'type':'Utf8','content':{'type':'Only'}}")>>
(* what an extension adds *)
CapExt == {<<"STARTTLS", "starttls">>, <<"MAILBOX-REFERRALS", "mailbox_referrals">>, <<"LOGIN-REFERRALS", "login_referrals">>, <<"ID", "id">>,
           <<"METADATA", "metadata">>, <<"METADATA-SERVER", "metadata">>, <<"CONDSTORE", "condstore">>, <<"QRESYNC", "condstore">>,
           <<"NAMESPACE", "namespace">>, <<"UTF8=ACCEPT", "utf8">>, <<"UTF8=ONLY", "utf8">>}
TabOf(tab, c) == LET off == {B(p[1]) : p \in {p \in CapExt : p[2] \notin c.x}} IN SelectSeq(tab, LAMBDA r : r.e \notin off)

Core(c) == [
  atom |-> Cl("atom", 1),
  tag |-> Cl("tag", 1),
  text |-> Cl("text", 1),
  number |-> Nm(32, FALSE), nznumber |-> Nm(32, TRUE), number64 |-> Nm(64, FALSE), nznumber64 |-> Nm(64, TRUE),
  quoted |-> QuotedN("$1"),
  string |-> A(<<QuotedN(Ty("Quoted", "$1"))>> \o When("utf8" \in c.x, <<UQuotedN(Ty("QuotedUtf8", "$1"))>>) \o <<LitN(c, Ty("Literal", LitBody))>>),
  literal |-> LitN(c, LitBody),
  literal8 |-> Lit8N(c, LitBody),
  astring |-> A(<<S(<<Cl("astring", 1)>>, Ty("Atom", "$1")), S(<<R("string")>>, Ty("String", "$1"))>>),
  nil |-> K("NIL"),
  nstring |-> A(<<R("string"), KV("NIL", "null")>>),
  charset |-> A(<<S(<<R("atom")>>, Ty("Atom", "$1")), QuotedN(Ty("Quoted", "$1"))>>),
  mailbox |-> Map(R("astring"), "mailbox"),
  list_mailbox |-> A(<<S(<<Cl("list", 1)>>, Ty("Token", "$1")), S(<<R("string")>>, Ty("String", "$1"))>>),
  flagsys |-> Name(FlagTab, Ty("Extension", "$1")),
  flag |-> A(<<S(<<X("\\"), R("flagsys")>>, "$2"), S(<<R("atom")>>, Ty("Keyword", "$1"))>>),
  flag_list |-> Paren(ManyS(R("flag"), Sp, 0)),
  flag_fetch |-> A(<<S(<<X("\\"), NameF(<<RowT("Recent", "Recent")>>
        \o [j \in 1..Len(FlagTab) |-> [n |-> FlagTab[j].n, v |-> Fill(T(Ty("Flag", "$1")), <<FlagTab[j].v>>), e |-> FlagTab[j].e]],
        <<>>, Ty("Flag", Ty("Extension", "$1")))>>, "$2"),
        S(<<R("atom")>>, Ty("Flag", Ty("Keyword", "$1")))>>),
  flag_perm |-> A(<<XV("\\*", Plain("Asterisk")), S(<<R("flag")>>, Ty("Flag", "$1"))>>),
  name_attr |-> S(<<X("\\"), Name(AttrTab, Ty("Extension", "$1"))>>, "$2"),
  seq_number |-> A(<<S(<<R("nznumber")>>, Ty("Value", "$1")), XV("*", Plain("Asterisk"))>>),
  sequence |-> A(<<S(<<R("seq_number"), X(":"), R("seq_number")>>, Ty("Range", "[$1,$3]")), S(<<R("seq_number")>>, Ty("Single", "$1"))>>),
  sequence_set |-> LET x == ManyS(R("sequence"), X(","), 1) IN IF "always_normalize_sequence_sets" \in c.q THEN Map(x, "seqset") ELSE x,
  uid_set |-> ManyS(A(<<S(<<R("nznumber"), X(":"), R("nznumber")>>, Ty("Range", "[$1,$3]")), S(<<R("nznumber")>>, Ty("Single", "$1"))>>), X(","), 1),
  month |-> A([m \in 1..12 |-> K(MonthNames[m])]),
  date_text |-> S0(<<Dg(1, 2), X("-"), R("month"), X("-"), Dg(4, 4)>>),
  date |-> Map(A(<<R("date_text"), S0(<<X("\""), R("date_text"), X("\"")>>)>>), "date"),
  date_time |-> Map(S0(<<X("\""), A(<<S0(<<Sp, Dg(1, 1)>>), Dg(2, 2)>>), X("-"), R("month"), X("-"), Dg(4, 4), Sp,
                         Dg(2, 2), X(":"), Dg(2, 2), X(":"), Dg(2, 2), Sp, A(<<X("+"), X("-")>>), Dg(2, 2), Dg(2, 2), X("\"")>>), "datetime"),
  auth_type |-> Name(AuthTab, OtherC),
  thread_alg |-> Name(ThreadTab, OtherC),
  resource |-> Name(ResTab, OtherC),
  capability |-> NameF(TabOf(CapTab, c), CapFam, OtherC),
  capability_enable |-> Name(TabOf(EnableTab, c), OtherC),
  delimiter |-> A(<<[k |-> "qchar"], KV("NIL", "null")>>),
  id_params |-> A(When("id_empty_to_nil" \in c.q, <<S(<<XE("(", "NIL"), Opt(XE(" ", ""), ""), XE(")", "")>>, "[]")>>)
                  \o <<S(<<X("("), ManyS(S(<<R("string"), Sp, R("nstring")>>, "[$1,$3]"), Sp, 0)>> \o TrailingSp(c, "trailing_space_id") \o <<X(")")>>, "$2"),
                       KV("NIL", "null")>>),
  entry_value |-> S(<<R("astring"), Sp, R("nstring8")>>, "{'entry':$1,'value':$3}"),
  entry_values |-> Paren(ManyS(R("entry_value"), Sp, 1)),
  nstring8 |-> A(<<S(<<R("nstring")>>, Ty("NString", "$1")), S(<<R("literal8")>>, Ty("Literal8", "$1"))>>),
  partial |-> S(<<X("<"), R("number"), X("."), R("nznumber"), X(">")>>, "[$2,$4]"),
  section_part |-> ManyS(R("nznumber"), X("."), 1),
  section_binary |-> S(<<X("["), Opt(R("section_part"), "[]"), X("]")>>, "$2"),
  header_list |-> Paren(ManyS(R("astring"), Sp, 1)),
  section_spec |-> A(<<
      S(<<K("HEADER.FIELDS.NOT"), Sp, R("header_list")>>, Ty("HeaderFieldsNot", "[null,$3]")),
      S(<<K("HEADER.FIELDS"), Sp, R("header_list")>>, Ty("HeaderFields", "[null,$3]")),
      KV("HEADER", Ty("Header", "null")), KV("TEXT", Ty("Text", "null")),
      (* the code parses the part once and then an optional ".spec"; the ordered choices below have the same language *)
      S(<<R("section_part"), X("."), K("HEADER.FIELDS.NOT"), Sp, R("header_list")>>, Ty("HeaderFieldsNot", "[$1,$5]")),
      S(<<R("section_part"), X("."), K("HEADER.FIELDS"), Sp, R("header_list")>>, Ty("HeaderFields", "[$1,$5]")),
      S(<<R("section_part"), X("."), K("HEADER")>>, Ty("Header", "$1")),
      S(<<R("section_part"), X("."), K("TEXT")>>, Ty("Text", "$1")),
      S(<<R("section_part"), X("."), K("MIME")>>, Ty("Mime", "$1")),
      S(<<R("section_part")>>, Ty("Part", "$1"))>>),
  section |-> S(<<X("["), Opt(R("section_spec"), "null"), X("]")>>, "$2")
]

Atomic(type, key) == KV(key, Plain(type))
Arg(type, key, x) == S(<<K(key), Sp, x>>, Ty(type, "$3"))

Search(c) == [
  search_key |-> A(<<
      Atomic("All", "ALL"), Atomic("Answered", "ANSWERED"), Arg("Bcc", "BCC", R("astring")), Arg("Before", "BEFORE", R("date")),
      Arg("Body", "BODY", R("astring")), Arg("Cc", "CC", R("astring")), Atomic("Deleted", "DELETED"), Atomic("Flagged", "FLAGGED"),
      Arg("From", "FROM", R("astring")), Arg("Keyword", "KEYWORD", R("atom")), Atomic("New", "NEW"), Atomic("Old", "OLD"),
      Arg("On", "ON", R("date")), Atomic("Recent", "RECENT"), Atomic("Seen", "SEEN"), Arg("Since", "SINCE", R("date")),
      Arg("Subject", "SUBJECT", R("astring")), Arg("Text", "TEXT", R("astring")), Arg("To", "TO", R("astring")),
      Atomic("Unanswered", "UNANSWERED"), Atomic("Undeleted", "UNDELETED"), Atomic("Unflagged", "UNFLAGGED"),
      Arg("Unkeyword", "UNKEYWORD", R("atom")), Atomic("Unseen", "UNSEEN"), Atomic("Draft", "DRAFT"),
      S(<<K("HEADER"), Sp, R("astring"), Sp, R("astring")>>, Ty("Header", "[$3,$5]")),
      Arg("Larger", "LARGER", R("number")), Arg("Not", "NOT", Deep(R("search_key"))),
      S(<<K("OR"), Sp, Deep(R("search_key")), Sp, Deep(R("search_key"))>>, Ty("Or", "[$3,$5]")),
      Arg("SentBefore", "SENTBEFORE", R("date")), Arg("SentOn", "SENTON", R("date")), Arg("SentSince", "SENTSINCE", R("date")),
      Arg("Smaller", "SMALLER", R("number")), Arg("Uid", "UID", R("sequence_set")), Atomic("Undraft", "UNDRAFT"),
      Ext(c, "condstore", S(<<K("MODSEQ"), Opt(R("modseq_ext"), "null"), Sp, R("number64")>>, Ty("ModSequence", "{'entry':$2,'modseq':$4}"))),
      S(<<R("sequence_set")>>, Ty("SequenceSet", "$1")),
      S(<<X("("), ManyS(Deep(R("search_key")), Sp, 1), X(")")>>, Ty("And", "$2"))>>),
  modseq_ext |-> S(<<Sp, KE("\"/flags/", "\"/flags/", ""), R("attr_flag"), X("\""), Sp, R("entry_type_req")>>, "[$3,$6]"),
  attr_flag |-> A(<<S(<<X("\\\\"), R("flagsys")>>, "$2"), S(<<R("atom")>>, Ty("Keyword", "$1"))>>),
  entry_type_req |-> A(<<KE("PRIV", "priv", "'Private'"), KE("SHARED", "shared", "'Shared'"), KE("ALL", "all", "'All'")>>),
  search_criteria |-> S(<<R("charset"), Sp, ManyS(RD("search_key", 9), Sp, 1)>>, "'charset':$1,'search_criteria':$3")
]

AllStatusNames == <<<<"MESSAGES", "Messages">>, <<"RECENT", "Recent">>, <<"UIDNEXT", "UidNext">>, <<"UIDVALIDITY", "UidValidity">>, <<"UNSEEN", "Unseen">>,
                 <<"DELETED-STORAGE", "DeletedStorage">>, <<"DELETED", "Deleted">>, <<"HIGHESTMODSEQ", "HighestModSeq">>>>
StatusNames(c) == SelectSeq(AllStatusNames, LAMBDA n : n[1] # "HIGHESTMODSEQ" \/ "condstore" \in c.x)

Commands(c) == LET cs == "condstore" \in c.x IN [
  fetch_att |-> A(<<
      Atomic("Envelope", "ENVELOPE"), Atomic("Flags", "FLAGS"), Atomic("InternalDate", "INTERNALDATE"), Atomic("BodyStructure", "BODYSTRUCTURE"),
      S(<<K("BODY.PEEK"), R("section"), Opt(R("partial"), "null")>>, Ty("BodyExt", "{'section':$2,'partial':$3,'peek':true}")),
      S(<<K("BODY"), R("section"), Opt(R("partial"), "null")>>, Ty("BodyExt", "{'section':$2,'partial':$3,'peek':false}")),
      S(<<K("BINARY.PEEK"), R("section_binary"), Opt(R("partial"), "null")>>, Ty("Binary", "{'section':$2,'partial':$3,'peek':true}")),
      S(<<K("BINARY"), R("section_binary"), Opt(R("partial"), "null")>>, Ty("Binary", "{'section':$2,'partial':$3,'peek':false}")),
      S(<<K("BINARY.SIZE"), R("section_binary")>>, Ty("BinarySize", "{'section':$2}")),
      Atomic("Body", "BODY"), Atomic("Uid", "UID"), Atomic("Rfc822Header", "RFC822.HEADER"), Atomic("Rfc822Size", "RFC822.SIZE"),
      Atomic("Rfc822Text", "RFC822.TEXT"), Atomic("Rfc822", "RFC822"), Ext(c, "condstore", Atomic("ModSeq", "MODSEQ"))>>),
  status_att |-> LET ns == StatusNames(c) IN A([j \in 1..Len(ns) |-> KV(ns[j][1], "'" \o ns[j][2] \o "'")]),
  select_param |-> A(<<Atomic("CondStore", "CONDSTORE"),
      S(<<K("QRESYNC ("), R("nznumber"), Sp, R("nznumber64"), Opt(SpThen(R("sequence_set")), "null"),
          Opt(SpThen(S(<<X("("), R("sequence_set"), Sp, R("sequence_set"), X(")")>>, "[$2,$4]")), "null"), X(")")>>,
        Ty("QResync", "{'uid_validity':$2,'mod_sequence_value':$4,'known_uids':$5,'seq_match_data':$6}"))>>),
  select_params |-> S(<<X(" ("), ManyS(R("select_param"), Sp, 1), X(")")>>, "$2"),
  sort_criterion |-> S(<<Opt(KV("REVERSE ", "true"), "false"), R("sort_key")>>, "{'reverse':$1,'key':$2}"),
  sort_key |-> A(<<KV("ARRIVAL", "'Arrival'"), KV("CC", "'Cc'"), KV("DATE", "'Date'"), KV("FROM", "'From'"), KV("SIZE", "'Size'"),
                   KV("SUBJECT", "'Subject'"), KV("TO", "'To'"), KV("DISPLAYFROM", "'DisplayFrom'"), KV("DISPLAYTO", "'DisplayTo'")>>),
  fetch_modifier |-> A(<<S(<<K("CHANGEDSINCE "), R("nznumber64")>>, Ty("ChangedSince", "$2")), Atomic("Vanished", "VANISHED")>>),
  store_modifier |-> S(<<K("UNCHANGEDSINCE "), R("number64")>>, Ty("UnchangedSince", "$2")),
  getmetadata_option |-> A(<<S(<<K("MAXSIZE "), R("number")>>, Ty("MaxSize", "$2")),
      S(<<K("DEPTH "), A(<<XV("0", "'Null'"), XV("1", "'One'"), KV("INFINITY", "'Infinity'")>>)>>, Ty("Depth", "$2"))>>),
  (* "UID" variants carry uid:true; the plain ones uid:false *)
  body |-> A(<<
      Atomic("Capability", "CAPABILITY"), Atomic("Logout", "LOGOUT"), Atomic("Noop", "NOOP"),
      Ext(c, "id", S(<<K("ID "), R("id_params")>>, Ty("Id", "{'parameters':$2}"))),
      S(<<K("APPEND "), R("mailbox"), Opt(A(<<XEV(" ()", "", "[]"), SpThen(R("flag_list"))>>), "[]"), Opt(SpThen(R("date_time")), "null"), Sp,
          A(<<S(<<R("literal")>>, Ty("Literal", "$1")), S(<<R("literal8")>>, Ty("Literal8", "$1"))>>)>>,
        Ty("Append", "{'mailbox':$2,'flags':$3,'date':$4,'message':$6}")),
      S(<<K("CREATE "), R("mailbox")>>, Ty("Create", "{'mailbox':$2}")),
      S(<<K("DELETE "), R("mailbox")>>, Ty("Delete", "{'mailbox':$2}")),
      IF cs THEN S(<<K("EXAMINE "), R("mailbox"), Opt(R("select_params"), "[]")>>, Ty("Examine", "{'mailbox':$2,'parameters':$3}"))
            ELSE S(<<K("EXAMINE "), R("mailbox")>>, Ty("Examine", "{'mailbox':$2}")),
      S(<<K("LIST "), R("mailbox"), Sp, R("list_mailbox")>>, Ty("List", "{'reference':$2,'mailbox_wildcard':$4}")),
      S(<<K("LSUB "), R("mailbox"), Sp, R("list_mailbox")>>, Ty("Lsub", "{'reference':$2,'mailbox_wildcard':$4}")),
      S(<<K("RENAME "), R("mailbox"), Sp, R("mailbox")>>, Ty("Rename", "{'from':$2,'to':$4}")),
      IF cs THEN S(<<K("SELECT "), R("mailbox"), Opt(R("select_params"), "[]")>>, Ty("Select", "{'mailbox':$2,'parameters':$3}"))
            ELSE S(<<K("SELECT "), R("mailbox")>>, Ty("Select", "{'mailbox':$2}")),
      S(<<K("STATUS "), R("mailbox"), X(" ("), ManyS(R("status_att"), Sp, 0), X(")")>>, Ty("Status", "{'mailbox':$2,'item_names':$4}")),
      S(<<K("SUBSCRIBE "), R("mailbox")>>, Ty("Subscribe", "{'mailbox':$2}")),
      S(<<K("UNSUBSCRIBE "), R("mailbox")>>, Ty("Unsubscribe", "{'mailbox':$2}")),
      Atomic("Idle", "IDLE"),
      S(<<K("ENABLE"), Many(SpThen(R("capability_enable")), 1)>>, Ty("Enable", "{'capabilities':$2}")),
      S(<<K("COMPRESS "), Atomic("Deflate", "DEFLATE")>>, Ty("Compress", "{'algorithm':$2}")),
      S(<<K("GETQUOTA "), R("astring")>>, Ty("GetQuota", "{'root':$2}")),
      S(<<K("GETQUOTAROOT "), R("mailbox")>>, Ty("GetQuotaRoot", "{'mailbox':$2}")),
      S(<<K("SETQUOTA "), R("astring"), X(" ("), ManyS(S(<<R("resource"), Sp, R("number64")>>, "{'resource':$1,'limit':$3}"), Sp, 0), X(")")>>,
        Ty("SetQuota", "{'root':$2,'quotas':$4}")),
      Ext(c, "metadata", S(<<K("SETMETADATA"), Sp, R("mailbox"), Sp, R("entry_values")>>, Ty("SetMetadata", "{'mailbox':$3,'entry_values':$5}"))),
      Ext(c, "metadata", S(<<K("GETMETADATA"), Opt(SpThen(Paren(ManyS(R("getmetadata_option"), Sp, 1))), "[]"), Sp, R("mailbox"), Sp, R("entries")>>,
        Ty("GetMetadata", "{'options':$2,'mailbox':$4,'entries':$6}"))),
      Ext(c, "namespace", Atomic("Namespace", "NAMESPACE")),
      S(<<K("LOGIN"), Sp, R("astring"), Sp, R("astring")>>, Ty("Login", "{'username':$3,'password':$5}")),
      S(<<K("AUTHENTICATE "), R("auth_type"), Opt(SpThen(A(<<[k |-> "b64", empty |-> B("=")], XV("=", "[]")>>)), "null")>>,
        Ty("Authenticate", "{'mechanism':$2,'initial_response':$3}")),
      Ext(c, "starttls", Atomic("StartTLS", "STARTTLS")),
      Atomic("Check", "CHECK"), Atomic("Close", "CLOSE"), Atomic("Expunge", "EXPUNGE"),
      S(<<K("UID EXPUNGE "), R("sequence_set")>>, Ty("ExpungeUid", "{'sequence_set':$2}")),
      S(<<R("copy")>>, Ty("Copy", "{$1 'uid':false}")), S(<<R("fetch")>>, Ty("Fetch", "{$1}")), S(<<R("store")>>, Ty("Store", "{$1}")),
      S(<<K("UID"), Sp, R("copy")>>, Ty("Copy", "{$3 'uid':true}")),
      S(<<K("UID"), Sp, R("fetch_uid")>>, Ty("Fetch", "{$3}")),
      S(<<K("UID"), Sp, R("search")>>, Ty("Search", "{$3 'uid':true}")),
      S(<<K("UID"), Sp, R("store_uid")>>, Ty("Store", "{$3}")),
      S(<<K("UID"), Sp, R("move")>>, Ty("Move", "{$3 'uid':true}")),
      S(<<R("search")>>, Ty("Search", "{$1 'uid':false}")),
      S(<<Opt(KV("UID ", "true"), "false"), K("SORT "), Paren(ManyS(R("sort_criterion"), Sp, 1)), Sp, R("search_criteria")>>,
        Ty("Sort", "{'sort_criteria':$3,$5,'uid':$1}")),
      S(<<Opt(KV("UID ", "true"), "false"), K("THREAD "), R("thread_alg"), Sp, R("search_criteria")>>,
        Ty("Thread", "{'algorithm':$3,$5,'uid':$1}")),
      Atomic("Unselect", "UNSELECT"),
      S(<<R("move")>>, Ty("Move", "{$1 'uid':false}"))>>),
  entries |-> A(<<S(<<R("astring")>>, "[$1]"), S(<<XE("(", ""), R("astring"), XE(")", "")>>, "[$2]"), Paren(ManyS(R("astring"), Sp, 1))>>),
  copy |-> S(<<K("COPY"), Sp, R("sequence_set"), Sp, R("mailbox")>>, "'sequence_set':$3,'mailbox':$5"),
  move |-> S(<<K("MOVE"), Sp, R("sequence_set"), Sp, R("mailbox")>>, "'sequence_set':$3,'mailbox':$5"),
  fetch_items |-> A(<<KV("ALL", Ty("Macro", Plain("All"))), KV("FAST", Ty("Macro", Plain("Fast"))), KV("FULL", Ty("Macro", Plain("Full"))),
      S(<<R("fetch_att")>>, Ty("MessageDataItemNames", "[$1]")),
      S(<<XE("(", ""), R("fetch_att"), XE(")", "")>>, Ty("MessageDataItemNames", "[$2]")),
      S(<<X("("), ManyS(R("fetch_att"), Sp, 0), X(")")>>, Ty("MessageDataItemNames", "$2"))>>),
  fetch_mods |-> Opt(S(<<X(" ("), ManyS(R("fetch_modifier"), Sp, 1), X(")")>>, "$2"), "[]"),
  fetch |-> IF cs THEN S(<<K("FETCH"), Sp, R("sequence_set"), Sp, R("fetch_items"), R("fetch_mods")>>,
                           "'sequence_set':$3,'macro_or_item_names':$5,'uid':false,'modifiers':$6")
                 ELSE S(<<K("FETCH"), Sp, R("sequence_set"), Sp, R("fetch_items")>>, "'sequence_set':$3,'macro_or_item_names':$5,'uid':false"),
  fetch_uid |-> IF cs THEN S(<<K("FETCH"), Sp, R("sequence_set"), Sp, R("fetch_items"), R("fetch_mods")>>,
                           "'sequence_set':$3,'macro_or_item_names':$5,'uid':true,'modifiers':$6")
                 ELSE S(<<K("FETCH"), Sp, R("sequence_set"), Sp, R("fetch_items")>>, "'sequence_set':$3,'macro_or_item_names':$5,'uid':true"),
  store_mods |-> Opt(S(<<X(" ("), ManyS(R("store_modifier"), Sp, 1), X(")")>>, "$2"), "[]"),
  store_kind |-> Opt(A(<<XV("+", "'Add'"), XV("-", "'Remove'")>>), "'Replace'"),
  store_flags |-> A(<<R("flag_list"), S(<<XE("", "("), ManyS(R("flag"), Sp, 1), XE("", ")")>>, "$2")>>),
  store |-> IF cs THEN S(<<K("STORE"), Sp, R("sequence_set"), R("store_mods"), Sp, R("store_kind"), K("FLAGS"), Opt(KV(".SILENT", "'Silent'"), "'Answer'"), R("store_tail")>>,
                           "'sequence_set':$3,'kind':$6,'response':$8,'flags':$9,'uid':false,'modifiers':$4")
                 ELSE S(<<K("STORE"), Sp, R("sequence_set"), Sp, R("store_kind"), K("FLAGS"), Opt(KV(".SILENT", "'Silent'"), "'Answer'"), R("store_tail")>>,
                        "'sequence_set':$3,'kind':$5,'response':$7,'flags':$8,'uid':false"),
  store_uid |-> IF cs THEN S(<<K("STORE"), Sp, R("sequence_set"), R("store_mods"), Sp, R("store_kind"), K("FLAGS"), Opt(KV(".SILENT", "'Silent'"), "'Answer'"), R("store_tail")>>,
                           "'sequence_set':$3,'kind':$6,'response':$8,'flags':$9,'uid':true,'modifiers':$4")
                 ELSE S(<<K("STORE"), Sp, R("sequence_set"), Sp, R("store_kind"), K("FLAGS"), Opt(KV(".SILENT", "'Silent'"), "'Answer'"), R("store_tail")>>,
                        "'sequence_set':$3,'kind':$5,'response':$7,'flags':$8,'uid':true"),
  store_tail |-> SpThen(R("store_flags")),
  search |-> S(<<K("SEARCH"), Opt(S(<<Sp, K("CHARSET"), Sp, R("charset")>>, "$4"), "null"), Sp, ManyS(RD("search_key", 9), Sp, 1)>>,
               "'charset':$2,'criteria':$4"),
  command |-> S(<<R("tag"), Sp, R("body"), CrLf(c)>>, "{'tag':$1,'body':$3}"),
  authenticate_data |-> A(<<S(<<[k |-> "b64", empty |-> <<>>], CrLf(c)>>, Ty("Continue", "$1")), S(<<XV("*", Plain("Cancel")), CrLf(c)>>, "$1")>>),
  idle_done |-> S(<<K("DONE"), CrLf(c)>>, "null")
]

Responses(c) == LET cs == "condstore" \in c.x IN [
  resp_text |-> A(<<S(<<X("["), R("code"), IF "missing_text" \in c.q THEN A(<<SpThen(R("text")), Peek(CrLf(c), "'...'", " ...")>>) ELSE SpThen(R("text"))>>, "'code':$2,'text':$3"),
                    S(<<[k |-> "not", b |-> 91], R("text")>>, "'code':null,'text':$2")>>),
  code |-> A(<<S(<<R("known_code"), X("]")>>, "$1"), S(<<ClB("code", 0), X("]")>>, Ty("Other", "$1"))>>),
  known_code |-> A(<<
      Atomic("Alert", "ALERT"),
      S(<<K("BADCHARSET"), Opt(S(<<X(" ("), ManyS(R("charset"), Sp, 1), X(")")>>, "$2"), "[]")>>, Ty("BadCharset", "{'allowed':$2}")),
      S(<<R("capability_data")>>, Ty("Capability", "$1")),
      Atomic("Parse", "PARSE"),
      S(<<K("PERMANENTFLAGS "), Paren(Opt(ManyS(R("flag_perm"), Sp, 1), "[]"))>>, Ty("PermanentFlags", "$2")),
      Atomic("ReadOnly", "READ-ONLY"), Atomic("ReadWrite", "READ-WRITE"), Atomic("TryCreate", "TRYCREATE"),
      S(<<K("UIDNEXT "), R("nznumber")>>, Ty("UidNext", "$2")), S(<<K("UIDVALIDITY "), R("nznumber")>>, Ty("UidValidity", "$2")),
      S(<<K("UNSEEN "), R("nznumber")>>, Ty("Unseen", "$2")),
      Atomic("CompressionActive", "COMPRESSIONACTIVE"), Atomic("OverQuota", "OVERQUOTA"), Atomic("TooBig", "TOOBIG"),
      Ext(c, "metadata", S(<<K("METADATA "), A(<<S(<<K("LONGENTRIES "), R("number")>>, Ty("LongEntries", "$2")), S(<<K("MAXSIZE "), R("number")>>, Ty("MaxSize", "$2")),
                            Atomic("TooMany", "TOOMANY"), Atomic("NoPrivate", "NOPRIVATE")>>)>>, Ty("Metadata", "$2"))),
      Atomic("UnknownCte", "UNKNOWN-CTE"),
      S(<<K("APPENDUID "), R("nznumber"), Sp, R("nznumber")>>, Ty("AppendUid", "{'uid_validity':$2,'uid':$4}")),
      S(<<K("COPYUID "), R("nznumber"), Sp, R("uid_set"), Sp, R("uid_set")>>, Ty("CopyUid", "{'uid_validity':$2,'source':$4,'destination':$6}")),
      Atomic("UidNotSticky", "UIDNOTSTICKY"),
      Ext(c, "condstore", S(<<K("HIGHESTMODSEQ "), R("nznumber64")>>, Ty("HighestModSeq", "$2"))), Ext(c, "condstore", Atomic("NoModSeq", "NOMODSEQ")),
      Ext(c, "condstore", S(<<K("MODIFIED "), R("sequence_set")>>, Ty("Modified", "$2"))), Ext(c, "condstore", Atomic("Closed", "CLOSED"))>>),
  capability_data |-> S(<<K("CAPABILITY "), ManyS(R("capability"), Sp, 1)>> \o TrailingSp(c, "trailing_space_capability"), "$2"),
  greeting |-> S(<<X("* "), A(<<KV("OK ", "'kind':'Ok'"), KV("PREAUTH ", "'kind':'PreAuth'"), KV("BYE ", "'kind':'Bye'")>>), R("resp_text"), CrLf(c)>>, "{$2,$3}"),
  state_kind |-> A(<<KV("OK ", "'kind':'Ok'"), KV("NO ", "'kind':'No'"), KV("BAD ", "'kind':'Bad'")>>),
  resp_cond |-> S(<<R("state_kind"), R("resp_text")>>, "{$1,$2}"),
  bye |-> S(<<K("BYE "), R("resp_text")>>, Ty("Status", Ty("Bye", "{$2}"))),
  response |-> A(<<
      IF "empty_continue_req" \in c.q
      THEN S(<<X("+"), As(CrLf(c), "", " ...\r\n")>>, Ty("CommandContinuationRequest", Ty("Basic", "{'code':null,'text':'...'}"))) ELSE None,
      S(<<X("+ "), A(<<S(<<[k |-> "b64", empty |-> <<>>], Peek(CrLf(c), "", "")>>, Ty("Base64", "$1")), S(<<R("resp_text")>>, Ty("Basic", "{$1}"))>>), CrLf(c)>>,
        Ty("CommandContinuationRequest", "$2")),
      S(<<X("* "), R("response_data"), CrLf(c)>>, "$2"),
      S(<<R("tag"), Sp, R("resp_cond"), CrLf(c)>>, Ty("Status", Ty("Tagged", "{'tag':$1,'body':$3}"))),
      S(<<X("* "), R("bye"), CrLf(c)>>, "$2")>>),
  response_data |-> A(<<
      S(<<R("resp_cond")>>, Ty("Status", Ty("Untagged", "$1"))),
      R("bye"),
      S(<<R("mailbox_data")>>, Ty("Data", "$1")),
      S(<<R("message_data")>>, Ty("Data", "$1")),
      S(<<R("capability_data")>>, Ty("Data", Ty("Capability", "$1"))),
      S(<<K("ENABLED"), Many(SpThen(R("capability_enable")), 0)>>, Ty("Data", Ty("Enabled", "{'capabilities':$2}"))),
      Ext(c, "id", S(<<K("ID "), R("id_params")>>, Ty("Data", Ty("Id", "{'parameters':$2}"))))>>),
  mailbox_list |-> S(<<Paren(Opt(ManyS(R("name_attr"), Sp, 1), "[]")), Sp, R("delimiter"), Sp, R("mailbox")>>, "{'items':$1,'delimiter':$3,'mailbox':$5}"),
  modseq_tail |-> Opt(S(<<X(" "), X("("), K("MODSEQ "), R("nznumber64"), X(")")>>, "$4"), "null"),
  nums |-> Many(SpThen(R("nznumber")), 0),
  status_val |-> LET ns == StatusNames(c) IN A([j \in 1..Len(ns) |->
      S(<<K(ns[j][1] \o " "),
          R(IF ns[j][1] \in {"UIDNEXT", "UIDVALIDITY"} THEN "nznumber" ELSE IF ns[j][1] \in {"DELETED-STORAGE", "HIGHESTMODSEQ"} THEN "number64" ELSE "number")>>,
        Ty(ns[j][2], "$2"))]),
  thread_list |-> S(<<X("("), A(<<
      S(<<ManyS(R("nznumber"), Sp, 1), Opt(SpThen(Many(Deep(R("thread_list")), 2)), "null")>>, Ty("Members", "{'prefix':$1,'answers':$2}")),
      S(<<Many(Deep(R("thread_list")), 2)>>, Ty("Nested", "{'answers':$1}"))>>), X(")")>>, "$2"),
  ns_ext |-> S(<<Sp, R("string"), Sp, Paren(ManyS(R("string"), Sp, 1))>>, "{'key':$2,'values':$4}"),
  ns_descr |-> S(<<X("("), R("string"), Sp, R("delimiter"), Many(R("ns_ext"), 0), X(")")>>, "{'prefix':$2,'delimiter':$4,'extensions':$5}"),
  namespace |-> A(<<KV("NIL", "[]"), Paren(Many(R("ns_descr"), 1))>>),
  mailbox_data |-> A(<<
      S(<<K("FLAGS "), R("flag_list")>>, Ty("Flags", "$2")),
      S(<<K("LIST "), R("mailbox_list")>>, Ty("List", "$2")),
      S(<<K("LSUB "), R("mailbox_list")>>, Ty("Lsub", "$2")),
      IF cs THEN S(<<K("SEARCH"), R("nums"), R("modseq_tail")>> \o TrailingSp(c, "trailing_space_search"), Ty("Search", "[$2,$3]"))
            ELSE S(<<K("SEARCH"), R("nums")>> \o TrailingSp(c, "trailing_space_search"), Ty("Search", "$2")),
      IF cs THEN S(<<K("SORT"), R("nums"), R("modseq_tail")>>, Ty("Sort", "[$2,$3]")) ELSE S(<<K("SORT"), R("nums")>>, Ty("Sort", "$2")),
      S(<<K("THREAD"), Opt(SpThen(Many(RD("thread_list", 8), 1)), "[]")>>, Ty("Thread", "$2")),
      S(<<K("STATUS "), R("mailbox"), X(" ("), Opt(ManyS(R("status_val"), Sp, 1), "[]"), X(")")>> \o TrailingSp(c, "trailing_space_status"), Ty("Status", "{'mailbox':$2,'items':$4}")),
      Ext(c, "metadata",
        S(<<K("METADATA"), Sp, R("mailbox"), Sp, A(<<S(<<R("entry_values")>>, Ty("WithValues", "$1")), S(<<ManyS(R("astring"), Sp, 1)>>, Ty("WithoutValues", "$1"))>>)>>,
          Ty("Metadata", "{'mailbox':$3,'items':$5}"))),
      Ext(c, "namespace", S(<<K("NAMESPACE "), R("namespace"), Sp, R("namespace"), Sp, R("namespace")>>, Ty("Namespace", "{'personal':$2,'other':$4,'shared':$6}"))),
      S(<<R("number"), K(" EXISTS")>>, Ty("Exists", "$1")),
      S(<<R("number"), K(" RECENT")>>, Ty("Recent", "$1")),
      S(<<K("QUOTAROOT "), R("mailbox"), Many(SpThen(R("astring")), 0)>>, Ty("QuotaRoot", "{'mailbox':$2,'roots':$3}")),
      S(<<K("QUOTA "), R("astring"), X(" ("), ManyS(R("quota_resource"), Sp, 1), X(")")>>, Ty("Quota", "{'root':$2,'quotas':$4}"))>>),
  sps |-> IF "excessive_space_quota_resource" \in c.q THEN S(<<Sp, Rep(XE(" ", ""), 0)>>, "$2") ELSE Sp,
  quota_resource |-> S(<<R("resource"), R("sps"), R("number64"), R("sps"), R("number64")>>, "{'resource':$1,'usage':$3,'limit':$5}"),
  message_data |-> A(<<
      S(<<R("nznumber"), Sp, K("EXPUNGE")>>, Ty("Expunge", "$1")),
      S(<<R("nznumber"), Sp, K("FETCH "), Paren(ManyS(R("msg_att"), Sp, 1))>>, Ty("Fetch", "{'seq':$1,'items':$4}")),
      Ext(c, "condstore", S(<<K("VANISHED"), Opt(KV(" (EARLIER)", "true"), "false"), Sp, R("sequence_set")>>, Ty("Vanished", "{'earlier':$2,'known_uids':$4}")))>>),
  msg_att |-> A(<<
      S(<<K("FLAGS "), Paren(Opt(ManyS(R("flag_fetch"), Sp, 1), "[]"))>>, Ty("Flags", "$2")),
      Ext(c, "condstore", S(<<K("MODSEQ "), Paren(R("nznumber64"))>>, Ty("ModSeq", "$2"))),
      S(<<K("ENVELOPE "), R("envelope")>>, Ty("Envelope", "$2")),
      S(<<K("INTERNALDATE "), R("date_time")>>, Ty("InternalDate", "$2")),
      S(<<K("RFC822.HEADER "), R("nstring")>>, Ty("Rfc822Header", "$2")),
      S(<<K("RFC822.TEXT "), R("nstring")>>, Ty("Rfc822Text", "$2")),
      S(<<K("RFC822.SIZE "), R("number")>>, Ty("Rfc822Size", "$2")),
      S(<<K("RFC822 "), R("nstring")>>, Ty("Rfc822", "$2")),
      S(<<K("BODYSTRUCTURE "), RD("bodystruct", 8)>>, Ty("BodyStructure", "$2")),
      S(<<K("BODY "), RD("bodystruct", 8)>>, Ty("Body", "$2")),
      S(<<K("BODY"), R("section"), Opt(S(<<X("<"), R("number"), X(">")>>, "$2"), "null"), Sp, R("nstring")>>, Ty("BodyExt", "{'section':$2,'origin':$3,'data':$5}")),
      S(<<K("UID "), R("nznumber")>>, Ty("Uid", "$2")),
      S(<<K("BINARY"), R("section_binary"), Sp, R("nstring8")>>, Ty("Binary", "{'section':$2,'value':$4}")),
      S(<<K("BINARY.SIZE"), R("section_binary"), Sp, R("number")>>, Ty("BinarySize", "{'section':$2,'size':$4}"))>>),
  address |-> S(<<IF "spaces_between_addresses" \in c.q THEN Rep(XE(" ", ""), 0) ELSE X(""), X("("), R("nstring"), Sp, R("nstring"), Sp, R("nstring"), Sp, R("address_tail")>>,
                "{'name':$3,'adl':$5,'mailbox':$7,'host':$9}"),
  address_tail |-> S(<<R("nstring"), X(")")>>, "$1"),
  addresses |-> A(<<Paren(Many(R("address"), 1)), KV("NIL", "[]")>>),
  envelope |-> S(<<X("("), R("env1"), R("env2"), X(")")>>, "{$2,$3}"),
  env1 |-> S(<<R("nstring"), Sp, R("nstring"), Sp, R("addresses"), Sp, R("addresses"), Sp, R("addresses")>>,
             "'date':$1,'subject':$3,'from':$5,'sender':$7,'reply_to':$9"),
  env2 |-> S(<<Sp, R("addresses"), Sp, R("addresses"), Sp, R("addresses"), Sp, R("nstring"), R("env3")>>, "'to':$2,'cc':$4,'bcc':$6,'in_reply_to':$8,$9"),
  env3 |-> S(<<Sp, R("nstring")>>, "'message_id':$2"),
  body_param |-> A(<<XEV("()", "NIL", "[]"), Paren(ManyS(S(<<R("string"), Sp, R("string")>>, "[$1,$3]"), Sp, 0)), KV("NIL", "[]")>>),
  body_enc |-> A(<<R("string"), IF "body_fld_enc_nil_to_empty" \in c.q THEN KE("NIL", "\"\"", Ty("Quoted", "''")) ELSE None>>),
  body_octets |-> A(<<R("number"), IF "rectify_numbers" \in c.q THEN As(S0(<<X("-"), R("number")>>), "0", "0") ELSE None>>),
  body_fields |-> S(<<R("body_param"), Sp, R("nstring"), Sp, R("nstring"), Sp, R("body_enc"), Sp, R("body_octets")>>,
                    "{'parameter_list':$1,'id':$3,'description':$5,'content_transfer_encoding':$7,'size':$9}"),
  body_dsp |-> A(<<S(<<X("("), R("string"), Sp, R("body_param"), X(")")>>, "[$2,$4]"), KV("NIL", "null")>>),
  body_lang |-> A(<<S(<<XE("", "("), R("string"), XE("", ")")>>, "[$2]"), KV("NIL", "[]"), Paren(ManyS(R("string"), Sp, 1))>>),
  body_ext |-> A(<<S(<<R("nstring")>>, Ty("NString", "$1")), S(<<R("number")>>, Ty("Number", "$1")),
                   S(<<X("("), ManyS(Deep(R("body_ext")), Sp, 1), X(")")>>, Ty("List", "$2"))>>),
  ext_tail |-> Opt(S(<<Sp, R("body_dsp"), Opt(S(<<Sp, R("body_lang"), Opt(S(<<Sp, R("nstring"), Many(SpThen(RD("body_ext", 8)), 0)>>,
                     "{'location':$2,'extensions':$3}"), "null")>>, "{'language':$2,'tail':$3}"), "null")>>, "{'disposition':$2,'tail':$3}"), "null"),
  body_1part |-> S(<<A(<<
      S(<<KE("\"MESSAGE\" \"RFC822\"", "\"MESSAGE\" \"RFC822\"", ""), Sp, R("body_fields"), Sp, R("envelope"), Sp, R("bodystruct"), Sp, R("number")>>,
        "{'basic':$3,'specific':{'type':'Message','content':{'envelope':$5,'body_structure':$7,'number_of_lines':$9}}}"),
      S(<<K("\"TEXT\" "), R("string"), Sp, R("body_fields"), Sp, R("number")>>,
        "{'basic':$4,'specific':{'type':'Text','content':{'subtype':$2,'number_of_lines':$6}}}"),
      S(<<R("string"), Sp, R("string"), Sp, R("body_fields")>>, "{'basic':$5,'specific':{'type':'Basic','content':{'type':$1,'subtype':$3}}}")>>),
      Opt(S(<<Sp, R("nstring"), R("ext_tail")>>, "{'md5':$2,'tail':$3}"), "null")>>, Ty("Single", "{'body':$1,'extension_data':$2}")),
  body_mpart |-> S(<<Many(R("bodystruct"), 1), Sp, R("string"), Opt(S(<<Sp, R("body_param"), R("ext_tail")>>, "{'parameter_list':$2,'tail':$3}"), "null")>>,
                   Ty("Multi", "{'bodies':$1,'subtype':$3,'extension_data':$4}")),
  bodystruct |-> S(<<X("("), Deep(A(<<R("body_1part"), R("body_mpart")>>)), X(")")>>, "$2")
]

Merge2(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
GramOf(c) == Merge2(Merge2(Core(c), Search(c)), Merge2(Commands(c), Responses(c)))
Gram == GramOf(Config)
GramStrict == GramOf(Strict)

Root == [cmd |-> "command", auth |-> "authenticate_data", idle |-> "idle_done", gre |-> "greeting", resp |-> "response"]
(* the meaning of a byte string as a message of kind m *)
Parse(m, s) == P(Gram, Gram[Root[m]], s, 1, 0)
ParseStrict(m, s) == P(GramStrict, GramStrict[Root[m]], s, 1, 0)
=============================================================================
