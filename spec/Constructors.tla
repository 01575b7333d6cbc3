---------------------------- MODULE Constructors -----------------------------
(* What the checked constructors of the value types make of a byte string.      *)
EXTENDS Values

AllIn(cls, b) == Scan(Cls[cls], b, 1) > Len(b)
NonEmptyIn(cls, b) == Len(b) > 0 /\ AllIn(cls, b)
NoNul(b) == \A j \in 1..Len(b) : b[j] # 0

Accept(v, c) == [ok |-> TRUE, v |-> v, c |-> c]
Reject == [ok |-> FALSE, v |-> <<>>, c |-> <<>>]
If(cond, x) == IF cond THEN x ELSE Reject

TplQuoted == T(Ty("Quoted", "$1"))
TplLiteral == T(Ty("Literal", "{'data':$1,'mode':'Sync'}"))
TplLit == T("{'data':$1,'mode':'Sync'}")
TplString == T(Ty("String", "$1"))
TplAtom == T(Ty("Atom", "$1"))
TplToken == T(Ty("Token", "$1"))
TplKeyword == T(Ty("Keyword", "$1"))
TplExt == T(Ty("Extension", "$1"))
TplOtherC == T(OtherC)

IStringOf(b) == IF AllIn("text", b) THEN Fill(TplQuoted, <<StrToks(b)>>) ELSE Fill(TplLiteral, <<ByteArr(b)>>)
AStringOf(b) == IF NonEmptyIn("astring", b) THEN Fill(TplAtom, <<StrToks(b)>>) ELSE Fill(TplString, <<IStringOf(b)>>)
Known(tab, fam, o, b) == If(NonEmptyIn("atom", b), LET x == FamOf([tab |-> tab, fam |-> fam, o |-> o], b) IN Accept(x.v, x.e))
Plus(p, x) == IF x.ok THEN [x EXCEPT !.c = p \o @] ELSE x
DeflateTab == <<RowT("DEFLATE", "Deflate")>>
Prefixed(b, p) == Len(b) >= Len(p) /\ SubSeq(b, 1, Len(p)) = p
FlagOf(b, p) == IF Prefixed(b, p) THEN Plus(p, Known(FlagTab, <<>>, TplExt, SubSeq(b, Len(p) + 1, Len(b))))
                ELSE If(NonEmptyIn("atom", b), Accept(Fill(TplKeyword, <<StrToks(b)>>), b))

(* what a checked constructor of type t makes of the bytes b *)
Expected(t, b) ==
  LET s == Accept(StrToks(b), b) IN
  CASE t = "tag" -> If(NonEmptyIn("tag", b), s)
    [] t = "atom" -> If(NonEmptyIn("atom", b), s)
    [] t = "atomext" -> If(NonEmptyIn("astring", b), s)
    [] t = "quoted" -> If(AllIn("text", b), s)
    [] t = "text" -> If(NonEmptyIn("text", b), s)
    [] t = "literal" -> If(NoNul(b), Accept(Fill(TplLit, <<ByteArr(b)>>), b))
    [] t = "listchar" -> If(NonEmptyIn("list", b), s)
    [] t = "istring" -> If(NoNul(b), Accept(IStringOf(b), b))
    [] t = "astring" -> If(NoNul(b), Accept(AStringOf(b), b))
    [] t = "listmailbox" -> If(NoNul(b), Accept(IF NonEmptyIn("list", b) THEN Fill(TplToken, <<StrToks(b)>>)
                                                ELSE Fill(TplString, <<IStringOf(b)>>), b))
    [] t = "charset" -> If(AllIn("text", b), Accept(Fill(IF NonEmptyIn("atom", b) THEN TplAtom ELSE TplQuoted, <<StrToks(b)>>), b))
    [] t = "mailbox" -> If(NoNul(b), IF Upper(b) = InboxUp THEN Accept(InboxV, InboxUp)
                                     ELSE Accept(Fill(OtherT, <<AStringOf(b)>>), b))
    [] t = "auth" -> Known(AuthTab, <<>>, TplOtherC, b)
    [] t = "cap" -> Known(CapTab, CapFam, TplOtherC, b)
    [] t = "resource" -> Known(ResTab, <<>>, TplOtherC, b)
    [] t = "enable" -> Known(EnableTab, <<>>, TplOtherC, b)
    [] t = "sort" -> Known(SortTab, <<>>, TplOtherC, b)
    [] t = "thread" -> Known(ThreadTab, <<>>, TplOtherC, b)
    [] t = "nameattr" -> Plus(<<BSL>>, Known(AttrTab, <<>>, TplExt, b))
    [] t = "compress" -> If(TabFind(DeflateTab, Upper(b), 1) # 0, Accept(DeflateTab[1].v, DeflateTab[1].e))
    [] t = "flag" -> FlagOf(b, <<BSL>>)
    [] t = "attrflag" -> FlagOf(b, <<BSL, BSL>>)
=============================================================================
