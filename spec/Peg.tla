-------------------------------- MODULE Peg ---------------------------------
(* A small declarative grammar language for IMAP and its meaning.              *)
(*                                                                             *)
(* A grammar is DATA: a record of nodes. Parse(g, node, input) decides, for    *)
(* every byte string,                                                          *)
(*   ok    the sentence, its value v (token sequence of the value's JSON), its *)
(*         canonical spelling e (bytes; 256/257 open a (non-)sync literal,     *)
(*         258 closes it) and its literal announcements h,                     *)
(*   inc   more bytes are needed,                                              *)
(*   lit   the input ends right behind a literal announcement,                 *)
(*   err / fail  no sentence starts like this (fail: no alternative helps).    *)
(* The same data is exported as JSON: the test driver samples sentences of it. *)
EXTENDS Bytes

LitSync == 256
LitNonSync == 257
LitEnd == 258

--------------------------------------------------------------------------------
(* Tokens of values.                                                           *)

ByteTok == [j \in 1..256 |->
              LET b == j - 1 IN
              IF \E c \in DOMAIN CharCode : b >= 32 /\ CharCode[c] = b
              THEN CHOOSE c \in DOMAIN CharCode : CharCode[c] = b
              ELSE "#" \o ToString(b)]
DigTok == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>

NumToks(d) == <<"n">> \o [j \in 1..Len(d) |-> DigTok[d[j] + 1]]
ByteNum == [j \in 1..256 |-> NumToks(NatDigits(j - 1))]
StrToks(bs) == <<"s(">> \o [j \in 1..Len(bs) |-> ByteTok[bs[j] + 1]] \o <<")s">>
RECURSIVE Flat(_)
Flat(ss) == IF Len(ss) = 0 THEN <<>>
            ELSE IF Len(ss) = 1 THEN ss[1]
            ELSE LET m == Len(ss) \div 2 IN Flat(SubSeq(ss, 1, m)) \o Flat(SubSeq(ss, m + 1, Len(ss)))
ByteArr(bs) == <<"[">> \o Flat([j \in 1..Len(bs) |-> ByteNum[bs[j] + 1]]) \o <<"]">>

(* Templates: JSON with single quotes and $1..$9 for the parts. Compiled to a    *)
(* sequence of [x |-> part or 0, c |-> constant tokens].                        *)
Ch(s, j) == SubSeq(s, j, j)
RECURSIVE FindCh(_, _, _)
FindCh(s, j, c) == IF Ch(s, j) = c THEN j ELSE FindCh(s, j + 1, c)
Konst(toks) == [x |-> 0, c |-> toks]
Hole(n) == [x |-> n, c |-> <<>>]
RECURSIVE TplWord(_, _)
TplWord(s, j) == IF j > Len(s) \/ Ch(s, j) \notin {"a","e","f","l","n","r","s","t","u"} THEN j ELSE TplWord(s, j + 1)
RECURSIVE TplNum(_, _)
TplNum(s, j) == IF j > Len(s) \/ Ch(s, j) \notin {"0","1","2","3","4","5","6","7","8","9"} THEN j ELSE TplNum(s, j + 1)
RECURSIVE Tpl(_, _)
Tpl(s, j) ==
  IF j > Len(s) THEN <<>>
  ELSE LET c == Ch(s, j) IN
    IF c \in {" ", ","} THEN Tpl(s, j + 1)
    ELSE IF c \in {"{", "}", "[", "]"} THEN <<Konst(<<c>>)>> \o Tpl(s, j + 1)
    ELSE IF c = "$" THEN <<Hole(CHOOSE n \in 1..9 : ToString(n) = Ch(s, j + 1))>> \o Tpl(s, j + 2)
    ELSE IF c = "'" THEN
      LET q == FindCh(s, j + 1, "'") w == SubSeq(s, j + 1, q - 1) IN
      IF q < Len(s) /\ Ch(s, q + 1) = ":" THEN <<Konst(<<w \o ":">>)>> \o Tpl(s, q + 2)
      ELSE <<Konst(StrToks(B(w)))>> \o Tpl(s, q + 1)
    ELSE IF c \in {"t", "f", "n"} THEN
      LET q == TplWord(s, j) IN <<Konst(<<SubSeq(s, j, q - 1)>>)>> \o Tpl(s, q)
    ELSE LET q == TplNum(s, j) IN <<Konst(NumToks(DigitsOf(B(SubSeq(s, j, q - 1)))))>> \o Tpl(s, q)
(* merge neighbouring constants *)
RECURSIVE TplMerge(_)
TplMerge(t) == IF Len(t) < 2 THEN t
               ELSE IF t[1].x = 0 /\ t[2].x = 0
                    THEN TplMerge(<<Konst(t[1].c \o t[2].c)>> \o SubSeq(t, 3, Len(t)))
                    ELSE <<t[1]>> \o TplMerge(Tail(t))
T(s) == TplMerge(Tpl(s, 1))
(* constant template -> tokens *)
C(s) == LET t == T(s) IN IF Len(t) = 0 THEN <<>> ELSE t[1].c
Fill(t, vs) == Flat([j \in 1..Len(t) |-> IF t[j].x = 0 THEN t[j].c ELSE vs[t[j].x]])

--------------------------------------------------------------------------------
(* Character classes.                                                          *)

IsText(b) == b >= 1 /\ b <= 127 /\ b # CR /\ b # LF
IsCtl(b) == b <= 31 \/ b = 127
IsQuotedSpecial(b) == b = DQ \/ b = BSL
IsListWildcard(b) == b = 37 \/ b = 42
IsRespSpecial(b) == b = 93
IsAtomSpecial(b) == b \in {40, 41, 123, 32} \/ IsCtl(b) \/ IsListWildcard(b) \/ IsQuotedSpecial(b) \/ IsRespSpecial(b)
IsAtomChar(b) == b <= 127 /\ ~IsAtomSpecial(b)
IsAStringChar(b) == IsAtomChar(b) \/ IsRespSpecial(b)
IsListChar(b) == IsAtomChar(b) \/ IsListWildcard(b) \/ IsRespSpecial(b)
IsB64(b) == IsAlpha(b) \/ IsDigit(b) \/ b = 43 \/ b = 47

ClsTab(Op(_)) == [j \in 1..256 |-> Op(j - 1)]
QChar(b) == IsText(b) /\ ~IsQuotedSpecial(b)
UQChar(b) == ~IsQuotedSpecial(b) /\ b # CR /\ b # LF
TagChar(b) == IsAStringChar(b) /\ b # PLUS
CodeChar(b) == b # 93 /\ b # CR /\ b # LF
Cls == [atom |-> ClsTab(IsAtomChar), astring |-> ClsTab(IsAStringChar), list |-> ClsTab(IsListChar),
        tag |-> ClsTab(TagChar), text |-> ClsTab(IsText), digit |-> ClsTab(IsDigit), b64 |-> ClsTab(IsB64),
        quoted |-> ClsTab(QChar), uquoted |-> ClsTab(UQChar), code |-> ClsTab(CodeChar)]

(* first index >= i that is not in the class (Len + 1: none); one by one at first, then in blocks that keep the recursion flat *)
Block == 64
RECURSIVE ScanK(_, _, _, _)
ScanK(tab, s, i, k) ==
  IF i > Len(s) THEN i
  ELSE IF k = 0
  THEN LET m == Min2(Len(s), i + Block) IN
       IF \A j \in i..m : tab[s[j] + 1] THEN ScanK(tab, s, m + 1, 0) ELSE ScanK(tab, s, i, Block + 1)
  ELSE IF tab[s[i] + 1] THEN ScanK(tab, s, i + 1, k - 1) ELSE i
Scan(tab, s, i) == ScanK(tab, s, i, 24)

--------------------------------------------------------------------------------
(* Results.                                                                    *)

Ok(i, v, e, h, r) == [k |-> "ok", i |-> i, v |-> v, e |-> e, h |-> h, r |-> r]
Inc == [k |-> "inc"]
Err == [k |-> "err"]
Fail == [k |-> "fail"]
LitAt(n, m) == [k |-> "lit", n |-> n, m |-> m]

(* UTF-8 well-formedness *)
Cont(b) == b >= 128 /\ b <= 191
LeadLen(b) == IF b < 128 THEN 1 ELSE IF b < 194 THEN 0 ELSE IF b <= 223 THEN 2 ELSE IF b <= 239 THEN 3 ELSE IF b <= 244 THEN 4 ELSE 0
Utf8(s) ==
  \/ \A j \in 1..Len(s) : s[j] < 128
  \/ \A j \in 1..Len(s) :
       LET b == s[j] IN
       IF Cont(b) THEN \E k \in 1..3 : k < j /\ LeadLen(s[j - k]) > k      \* part of a character
       ELSE /\ LeadLen(b) > 0
            /\ j + LeadLen(b) - 1 <= Len(s)
            /\ \A k \in 1..(LeadLen(b) - 1) : Cont(s[j + k])
            /\ b = 224 => s[j + 1] >= 160
            /\ b = 237 => s[j + 1] <= 159
            /\ b = 240 => s[j + 1] >= 144
            /\ b = 244 => s[j + 1] <= 143

(* base64 (RFC 4648, canonical: padded, zero trailing bits) *)
B64Val(b) == IF IsUpper(b) THEN b - 65 ELSE IF IsLower(b) THEN b - 71 ELSE IF IsDigit(b) THEN b + 4 ELSE IF b = 43 THEN 62 ELSE 63
B64Group(a, b, c, d) == <<a * 4 + b \div 16, (b % 16) * 16 + c \div 4, (c % 4) * 64 + d>>
B64Dec(s) ==             \* complete groups
  Flat([g \in 1..(Len(s) \div 4) |-> B64Group(B64Val(s[4 * g - 3]), B64Val(s[4 * g - 2]), B64Val(s[4 * g - 1]), B64Val(s[4 * g]))])
B64Decode(s) ==  \* [ok, d]
  IF Len(s) = 0 THEN [ok |-> TRUE, d |-> <<>>]
  ELSE IF Len(s) % 4 # 0 THEN [ok |-> FALSE, d |-> <<>>]
  ELSE LET p == IF s[Len(s)] # 61 THEN 0 ELSE IF s[Len(s) - 1] # 61 THEN 1 ELSE 2
           body == SubSeq(s, 1, Len(s) - p)
           full == SubSeq(s, 1, Len(s) - (IF p = 0 THEN 0 ELSE 4))
       IN IF \E j \in 1..Len(body) : ~IsB64(body[j]) THEN [ok |-> FALSE, d |-> <<>>]
          ELSE IF p = 0 THEN [ok |-> TRUE, d |-> B64Dec(full)]
          ELSE LET a == B64Val(s[Len(s) - 3]) b == B64Val(s[Len(s) - 2]) IN
            IF p = 2 THEN IF b % 16 # 0 THEN [ok |-> FALSE, d |-> <<>>]
                          ELSE [ok |-> TRUE, d |-> B64Dec(full) \o <<a * 4 + b \div 16>>]
            ELSE LET c == B64Val(s[Len(s) - 1]) IN
                 IF c % 4 # 0 THEN [ok |-> FALSE, d |-> <<>>]
                 ELSE [ok |-> TRUE, d |-> B64Dec(full) \o <<a * 4 + b \div 16, (b % 16) * 16 + c \div 4>>]

(* escapes undone, by halves: what lies in i..j, and where it ends (an escape may reach over j) *)
RECURSIVE UnescR(_, _, _)
UnescR(s, i, j) ==
  IF i > j THEN [b |-> <<>>, i |-> i]
  ELSE IF i = j THEN IF s[i] = BSL /\ i < Len(s) THEN [b |-> <<s[i + 1]>>, i |-> i + 2] ELSE [b |-> <<s[i]>>, i |-> i + 1]
  ELSE IF \A x \in i..j : s[x] # BSL THEN [b |-> SubSeq(s, i, j), i |-> j + 1]
  ELSE LET l == UnescR(s, i, (i + j) \div 2) r == UnescR(s, l.i, j) IN [b |-> l.b \o r.b, i |-> r.i]
Unesc(s) == UnescR(s, 1, Len(s)).b

--------------------------------------------------------------------------------
(* Leaves.                                                                     *)

RECURSIVE KwScan(_, _, _, _, _)
KwScan(b, ci, s, i, j) ==
  IF j > Len(b) THEN 1
  ELSE IF i + j - 1 > Len(s) THEN 2
  ELSE IF (IF ci THEN UpB(s[i + j - 1]) = UpB(b[j]) ELSE s[i + j - 1] = b[j]) THEN KwScan(b, ci, s, i, j + 1) ELSE 3

PKw(n, s, i) == LET q == KwScan(n.b, n.ci, s, i, 1) IN
                IF q = 1 THEN Ok(i + Len(n.b), n.v, n.e, <<>>, <<>>) ELSE IF q = 2 THEN Inc ELSE Err

PCls(n, s, i) ==
  LET q == Scan(Cls[n.set], s, i) IN
  IF q > Len(s) THEN Inc
  ELSE IF q - i < n.min THEN Err
  ELSE LET bs == SubSeq(s, i, q - 1) IN
       Ok(q, IF n.as = "bytes" THEN ByteArr(bs) ELSE StrToks(bs), bs, <<>>, bs)

PDigs(n, s, i) ==
  LET q == Scan(Cls["digit"], SubSeq(s, 1, Min2(Len(s), i + n.hi - 1)), i) IN
  IF q - i = n.hi \/ (q <= Len(s) /\ q - i >= n.lo) THEN LET bs == SubSeq(s, i, q - 1) IN Ok(q, <<>>, bs, <<>>, bs)
  ELSE IF q > Len(s) THEN Inc ELSE Err

PNum(n, s, i) ==
  LET q == Scan(Cls["digit"], s, i) IN
  IF q > Len(s) THEN Inc
  ELSE IF q = i THEN Err
  ELSE LET d == DigitsOf(SubSeq(s, i, q - 1)) IN
       IF ~(IF n.bits = 32 THEN FitsU32(d) ELSE FitsU64(d)) THEN Err
       ELSE IF n.nz /\ d = <<0>> THEN Err
       ELSE Ok(q, NumToks(d), [j \in 1..Len(d) |-> d[j] + 48], <<>>, SubSeq(s, i, q - 1))

(* "..." with the given class of plain characters; returns index of the closing quote or 0 - kind *)
RECURSIVE QEnd(_, _, _)
QEnd(tab, s, i) ==
  IF i > Len(s) THEN [k |-> "inc", i |-> i]
  ELSE IF s[i] = DQ THEN [k |-> "ok", i |-> i]
  ELSE IF s[i] = BSL THEN
    IF i = Len(s) THEN [k |-> "inc", i |-> i]
    ELSE IF IsQuotedSpecial(s[i + 1]) THEN QEnd(tab, s, i + 2) ELSE [k |-> "err", i |-> i]
  ELSE IF tab[s[i] + 1] THEN QEnd(tab, s, Scan(tab, s, i)) ELSE [k |-> "err", i |-> i]

PQuoted(n, s, i) ==
  IF i > Len(s) THEN Inc
  ELSE IF s[i] # DQ THEN Err
  ELSE LET q == QEnd(Cls[IF n.utf8 THEN "uquoted" ELSE "quoted"], s, i + 1) IN
       IF q.k = "inc" THEN Inc
       ELSE IF q.k = "err" THEN Err
       ELSE LET raw == SubSeq(s, i + 1, q.i - 1) IN
            IF n.utf8 /\ ~Utf8(raw) THEN Err
            ELSE LET c == IF \A x \in 1..Len(raw) : raw[x] # BSL THEN raw ELSE Unesc(raw) IN Ok(q.i + 1, Fill(n.t, <<StrToks(c)>>), SubSeq(s, i, q.i), <<>>, c)

(* one quoted character: DQUOTE QUOTED-CHAR DQUOTE *)
PQChar(n, s, i) ==
  IF i > Len(s) THEN Inc ELSE IF s[i] # DQ THEN Err
  ELSE IF i + 1 > Len(s) THEN Inc
  ELSE LET j == i + 1
           w == IF s[j] = BSL THEN 2 ELSE 1 IN
       IF w = 1 /\ ~Cls["quoted"][s[j] + 1] THEN Err
       ELSE IF w = 2 /\ j + 1 > Len(s) THEN Inc
       ELSE IF w = 2 /\ ~IsQuotedSpecial(s[j + 1]) THEN Err
       ELSE IF j + w > Len(s) THEN Inc
       ELSE IF s[j + w] # DQ THEN Err
       ELSE Ok(j + w + 1, StrToks(<<s[j + w - 1]>>), SubSeq(s, i, j + w), <<>>, <<s[j + w - 1]>>)

(* literal / literal8 *)
PLit(n, s, i) ==
  LET o == IF n.lit8 THEN <<126, LBRACE>> ELSE <<LBRACE>>
      a == KwScan(o, FALSE, s, i, 1) IN
  IF a = 2 THEN Inc ELSE IF a = 3 THEN Err
  ELSE LET j == i + Len(o)
           q == Scan(Cls["digit"], s, j) IN
    IF q > Len(s) THEN Inc
    ELSE IF q = j THEN Err
    ELSE LET d == DigitsOf(SubSeq(s, j, q - 1)) IN
      IF ~FitsU32(d) THEN Err
      ELSE LET nons == s[q] = PLUS
               z == IF nons THEN q + 1 ELSE q
               bare == n.lf /\ z < Len(s) /\ s[z + 1] # CR      \* a line feed alone, where that is allowed
               c == KwScan(IF bare THEN <<RBRACE, LF>> ELSE <<RBRACE, CR, LF>>, FALSE, s, z, 1) IN
        IF c = 2 THEN Inc ELSE IF c = 3 THEN Err
        ELSE LET b == z + (IF bare THEN 2 ELSE 3)
                 m == IF nons THEN "NonSync" ELSE "Sync"
                 len == ToInt(d) IN
          IF b > Len(s) THEN LitAt(d, m)
          ELSE IF Len(s) - b + 1 < len THEN Inc
          ELSE LET data == SubSeq(s, b, b + len - 1) IN
            IF ~n.lit8 /\ \E x \in 1..len : data[x] = 0 THEN Fail
            ELSE Ok(b + len,
                    Fill(n.t, <<ByteArr(data), C(IF nons THEN "'NonSync'" ELSE "'Sync'")>>),
                    o \o [x \in 1..Len(d) |-> d[x] + 48] \o (IF nons THEN <<PLUS>> ELSE <<>>) \o <<RBRACE, CR, LF>>
                      \o <<IF nons THEN LitNonSync ELSE LitSync>> \o data \o <<LitEnd>>,
                    <<[p |-> b - 1, n |-> d, m |-> m]>>, data)

PB64(n, s, i) ==
  LET q == Scan(Cls["b64"], s, i) IN
  IF q > Len(s) THEN Inc
  ELSE LET p == IF s[q] # 61 THEN 0 ELSE IF q + 1 > Len(s) THEN 9 ELSE IF s[q + 1] = 61 THEN 2 ELSE 1 IN
    IF p = 9 THEN Inc
    ELSE LET raw == SubSeq(s, i, q + p - 1) dec == B64Decode(raw) IN
      IF ~dec.ok THEN Err
      ELSE Ok(q + p, ByteArr(dec.d), IF Len(dec.d) = 0 THEN n.empty ELSE raw, <<>>, dec.d)

--------------------------------------------------------------------------------
(* Dates.                                                                      *)

Num(bs) == ToInt(DigitsOf(bs))
MonthNames == <<"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC">>
MonthBytes == [m \in 1..12 |-> B(MonthNames[m])]
MonthOf(bs) == CHOOSE m \in 1..12 : MonthBytes[m] = Upper(bs)
MonthCanon == <<B("Jan"), B("Feb"), B("Mar"), B("Apr"), B("May"), B("Jun"), B("Jul"), B("Aug"), B("Sep"), B("Oct"), B("Nov"), B("Dec")>>
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Pad(n, w) == LET d == NatDigits(n) IN [j \in 1..w |-> IF j <= w - Len(d) THEN 48 ELSE d[j - (w - Len(d))] + 48]

(* raw: DAY "-" MON "-" YEAR with 1-2 digit day *)
DateOf(raw) ==
  LET dash == IF raw[2] = 45 THEN 2 ELSE 3
      d == Num(SubSeq(raw, 1, dash - 1)) m == MonthOf(SubSeq(raw, dash + 1, dash + 3)) y == Num(SubSeq(raw, dash + 5, dash + 8)) IN
  [ok |-> d >= 1 /\ d <= DaysIn(y, m), iso |-> Pad(y, 4) \o <<45>> \o Pad(m, 2) \o <<45>> \o Pad(d, 2),
   d |-> d, m |-> m, y |-> y]
DateCanon(x) == <<DQ>> \o Pad(x.d, 2) \o <<45>> \o MonthCanon[x.m] \o <<45>> \o Pad(x.y, 4) \o <<DQ>>

(* raw: DQ 2DAY "-" MON "-" YEAR SP HH:MM:SS SP ZONE DQ - 28 bytes *)
DateTimeOf(raw) ==
  LET d == IF raw[2] = SP THEN raw[3] - 48 ELSE Num(SubSeq(raw, 2, 3))
      m == MonthOf(SubSeq(raw, 5, 7)) y == Num(SubSeq(raw, 9, 12))
      hh == Num(SubSeq(raw, 14, 15)) mi == Num(SubSeq(raw, 17, 18)) ss == Num(SubSeq(raw, 20, 21))
      zh == Num(SubSeq(raw, 24, 25)) zm == Num(SubSeq(raw, 26, 27))
      off == zh * 60 + zm
      sign == IF off = 0 THEN 43 ELSE raw[23]
      zoneOk == off < 24 * 60
  IN [ok |-> d >= 1 /\ d <= DaysIn(y, m) /\ hh <= 23 /\ mi <= 59 /\ ss <= 59 /\ zoneOk,
      iso |-> Pad(y, 4) \o <<45>> \o Pad(m, 2) \o <<45>> \o Pad(d, 2) \o <<84>> \o Pad(hh, 2) \o <<58>> \o Pad(mi, 2) \o <<58>> \o Pad(ss, 2)
               \o (IF off = 0 THEN <<90>> ELSE <<sign>> \o Pad(off \div 60, 2) \o <<58>> \o Pad(off % 60, 2)),
      e |-> <<DQ>> \o Pad(d, 2) \o <<45>> \o MonthCanon[m] \o <<45>> \o Pad(y, 4) \o <<SP>> \o SubSeq(raw, 14, 21) \o <<SP, sign>>
             \o Pad(off \div 60, 2) \o Pad(off % 60, 2) \o <<DQ>>]

--------------------------------------------------------------------------------
(* Names with predefined spellings (case-insensitive) and an open rest.         *)

RECURSIVE TabFind(_, _, _)
TabFind(tab, up, j) == IF j > Len(tab) THEN 0 ELSE IF tab[j].n = up THEN j ELSE TabFind(tab, up, j + 1)
NameOf(tab, o, bs) == LET j == TabFind(tab, Upper(bs), 1) IN
                      IF j = 0 THEN [v |-> Fill(o, <<StrToks(bs)>>), e |-> bs] ELSE [v |-> tab[j].v, e |-> tab[j].e]
(* families NAME=rest: fam[j] = [p |-> prefix incl. "=", tab, o, closed, t] *)
RECURSIVE FamFind(_, _, _)
FamFind(fam, up, j) == IF j > Len(fam) THEN 0
                       ELSE IF Len(up) > Len(fam[j].p) /\ SubSeq(up, 1, Len(fam[j].p)) = fam[j].p
                               /\ (~fam[j].closed \/ TabFind(fam[j].tab, SubSeq(up, Len(fam[j].p) + 1, Len(up)), 1) # 0)
                            THEN j ELSE FamFind(fam, up, j + 1)
FamOf(n, bs) ==
  LET up == Upper(bs) j == TabFind(n.tab, up, 1) IN
  IF j # 0 THEN [v |-> n.tab[j].v, e |-> n.tab[j].e]
  ELSE LET f == FamFind(n.fam, up, 1) IN
       IF f = 0 THEN [v |-> Fill(n.o, <<StrToks(bs)>>), e |-> bs]
       ELSE LET x == n.fam[f] r == NameOf(x.tab, x.o, SubSeq(bs, Len(x.p) + 1, Len(bs))) IN
            [v |-> Fill(x.t, <<r.v>>), e |-> x.p \o r.e]

--------------------------------------------------------------------------------
(* Sequence sets: canonical spelling. r of a sequence set node is the list of    *)
(* <<from, to>> pairs of digit sequences; <<>> stands for "*".                   *)

SeqLE(a, b) == IF Len(b) = 0 THEN TRUE ELSE IF Len(a) = 0 THEN FALSE ELSE DigLE(a, b)
SplitAt(s, c) ==          \* split s at byte c
  LET ix == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : s[j] = c) n == Len(ix) IN
  [k \in 1..(n + 1) |-> SubSeq(s, IF k = 1 THEN 1 ELSE ix[k - 1] + 1, IF k > n THEN Len(s) ELSE ix[k] - 1)]
SeqNum(bs) == IF bs = <<42>> THEN <<>> ELSE DigitsOf(bs)
SeqPairs(raw) == LET parts == SplitAt(raw, 44) IN
  [j \in 1..Len(parts) |-> LET ab == SplitAt(parts[j], 58) a == SeqNum(ab[1]) b == SeqNum(ab[Len(ab)]) IN
                           IF SeqLE(a, b) THEN <<a, b>> ELSE <<b, a>>]
SortPairs(ps) == SortSeq(ps, LAMBDA p, q : ~SeqLE(q[1], p[1]))
(* successor in the order 1 < 2 < ... < 4294967295 < "*" *)
SeqSucc(a) == IF Len(a) = 0 THEN <<>> ELSE IF a = MaxU32 THEN <<>> ELSE DigInc(a)
RECURSIVE MergePairs(_, _, _)
MergePairs(ps, cur, j) ==
  IF j > Len(ps) THEN <<cur>>
  ELSE IF SeqLE(ps[j][1], SeqSucc(cur[2]))
       THEN MergePairs(ps, <<cur[1], IF SeqLE(cur[2], ps[j][2]) THEN ps[j][2] ELSE cur[2]>>, j + 1)
       ELSE <<cur>> \o MergePairs(ps, ps[j], j + 1)
Normal(pairs) == LET ps == SortPairs(pairs) IN MergePairs(ps, ps[1], 2)
SeqTxt(a) == IF Len(a) = 0 THEN <<42>> ELSE [j \in 1..Len(a) |-> a[j] + 48]
PairTxt(p) == IF p[1] = p[2] THEN SeqTxt(p[1]) ELSE SeqTxt(p[1]) \o <<58>> \o SeqTxt(p[2])
RECURSIVE PairsTxt(_, _)
PairsTxt(ps, j) == IF j > Len(ps) THEN <<>> ELSE (IF j > 1 THEN <<44>> ELSE <<>>) \o PairTxt(ps[j]) \o PairsTxt(ps, j + 1)
SeqCanon(raw) == PairsTxt(Normal(SeqPairs(raw)), 1)

--------------------------------------------------------------------------------
(* The interpreter. G: grammar record, n: node, s: input, i: position, d: depth *)
(* budget of the innermost recursive construct.                                 *)

InboxUp == B("INBOX")
InboxV == C("{'type':'Inbox'}")
OtherT == T("{'type':'Other','content':$1}")

PMap(n, s, i, q) ==
  CASE n.f = "mailbox" -> IF Upper(q.r) = InboxUp THEN Ok(q.i, InboxV, InboxUp, q.h, q.r)
                          ELSE [q EXCEPT !.v = Fill(OtherT, <<q.v>>)]
    [] n.f = "date" -> LET raw == SubSeq(s, i, q.i - 1)
                           x == DateOf(IF raw[1] = DQ THEN SubSeq(raw, 2, Len(raw) - 1) ELSE raw) IN
                       IF ~x.ok THEN Err ELSE Ok(q.i, StrToks(x.iso), DateCanon(x), <<>>, <<>>)
    [] n.f = "datetime" -> LET x == DateTimeOf(SubSeq(s, i, q.i - 1)) IN
                           IF ~x.ok THEN Fail ELSE Ok(q.i, StrToks(x.iso), x.e, <<>>, <<>>)
    [] n.f = "seqset" -> [q EXCEPT !.e = SeqCanon(SubSeq(s, i, q.i - 1))]
    [] OTHER -> q

RECURSIVE P(_, _, _, _, _)
RECURSIVE PSeq(_, _, _, _, _, _, _, _, _)
RECURSIVE PAlt(_, _, _, _, _, _)
RECURSIVE PStep(_, _, _, _, _, _, _)
RECURSIVE PMany(_, _, _, _, _, _, _)

PSeq(G, n, s, i, d, j, vs, e, h) ==
  IF j > Len(n.xs) THEN Ok(i, IF Len(n.t) = 0 THEN Flat(vs) ELSE Fill(n.t, vs), e, h, <<>>)
  ELSE LET q == P(G, n.xs[j], s, i, d) IN
       IF q.k # "ok" THEN q ELSE PSeq(G, n, s, q.i, d, j + 1, Append(vs, q.v), e \o q.e, h \o q.h)

PAlt(G, n, s, i, d, j) ==
  IF j > Len(n.xs) THEN Err
  ELSE LET q == P(G, n.xs[j], s, i, d) IN IF q.k = "err" THEN PAlt(G, n, s, i, d, j + 1) ELSE q

(* up to 2^k repetitions, the first of them the cnt-th; halving keeps the recursion flat. q: what ended it ("ok": nothing) *)
PStep(G, n, s, i, d, cnt, k) ==
  IF k = 0
  THEN LET p == IF n.sep.k # "none" /\ cnt > 0 THEN P(G, n.sep, s, i, d) ELSE Ok(i, <<>>, <<>>, <<>>, <<>>)
           q == IF p.k = "ok" THEN P(G, n.x, s, p.i, d) ELSE p
       IN IF q.k = "ok" THEN [q |-> p, i |-> q.i, c |-> cnt + 1, v |-> q.v, e |-> p.e \o q.e, h |-> p.h \o q.h]
          ELSE [q |-> q, i |-> i, c |-> cnt, v |-> <<>>, e |-> <<>>, h |-> <<>>]
  ELSE LET a == PStep(G, n, s, i, d, cnt, k - 1) IN
       IF a.q.k # "ok" THEN a
       ELSE LET b == PStep(G, n, s, a.i, d, a.c, k - 1) IN [b EXCEPT !.v = a.v \o @, !.e = a.e \o @, !.h = a.h \o @]
PMany(G, n, s, i, d, k, a) ==      \* 1, 2, 4, ... repetitions at a time; a: what came before
  LET b == PStep(G, n, s, a.i, d, a.c, k)
      r == [b EXCEPT !.v = a.v \o @, !.e = a.e \o @, !.h = a.h \o @]
  IN IF r.q.k = "ok" THEN PMany(G, n, s, i, d, k + 1, r)
     ELSE IF r.q.k = "err"
     THEN IF r.c >= n.min THEN Ok(r.i, IF n.list THEN <<"[">> \o r.v \o <<"]">> ELSE r.v, r.e, r.h, <<>>) ELSE Err
     ELSE r.q

P(G, n, s, i, d) ==
  CASE n.k = "kw" -> PKw(n, s, i)
    [] n.k = "alt" -> PAlt(G, n, s, i, d, 1)
    [] n.k = "seq" -> IF Len(n.xs) = 1
                      THEN LET q == P(G, n.xs[1], s, i, d) IN IF q.k = "ok" THEN [q EXCEPT !.v = Fill(n.t, <<q.v>>)] ELSE q
                      ELSE PSeq(G, n, s, i, d, 1, <<>>, <<>>, <<>>)
    [] n.k = "ref" -> P(G, G[n.r], s, i, IF n.d = 0 THEN d ELSE n.d)
    [] n.k = "opt" -> LET q == P(G, n.x, s, i, d) IN IF q.k = "err" THEN Ok(i, n.v, n.e, <<>>, <<>>) ELSE q
    [] n.k = "many" -> PMany(G, n, s, i, d, 0, [i |-> i, c |-> 0, v |-> <<>>, e |-> <<>>, h |-> <<>>])
    [] n.k = "cls" -> PCls(n, s, i)
    [] n.k = "num" -> PNum(n, s, i)
    [] n.k = "quoted" -> PQuoted(n, s, i)
    [] n.k = "lit" -> PLit(n, s, i)
    [] n.k = "name" -> LET q == PCls([set |-> "atom", min |-> 1, as |-> "str"], s, i) IN
                       IF q.k # "ok" THEN q
                       ELSE LET x == FamOf(n, q.r) IN [q EXCEPT !.v = x.v, !.e = x.e]
    [] n.k = "map" -> LET q == P(G, n.x, s, i, d) IN IF q.k = "ok" THEN PMap(n, s, i, q) ELSE q
    [] n.k = "as" -> LET q == P(G, n.x, s, i, d) IN IF q.k = "ok" THEN Ok(q.i, n.v, n.e, q.h, <<>>) ELSE q
    [] n.k = "qchar" -> PQChar(n, s, i)
    [] n.k = "digs" -> PDigs(n, s, i)
    [] n.k = "b64" -> PB64(n, s, i)
    [] n.k = "deep" -> IF d <= 1 THEN Fail ELSE P(G, n.x, s, i, d - 1)   \* one level of nesting
    [] n.k = "not" -> IF i > Len(s) THEN Inc ELSE IF s[i] = n.b THEN Err ELSE Ok(i, <<>>, <<>>, <<>>, <<>>)
    [] n.k = "peek" -> LET q == P(G, n.x, s, i, d) IN IF q.k = "ok" THEN Ok(i, n.v, n.e, <<>>, <<>>) ELSE q
=============================================================================
