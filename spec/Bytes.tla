------------------------------- MODULE Bytes -------------------------------
(* Byte level vocabulary shared by all modules: character codes, character     *)
(* classes of RFC 3501, decimal numbers as digit sequences (TLC integers are   *)
(* 32 bit signed, IMAP numbers are 32/63/64 bit unsigned), string conversion.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CR == 13
LF == 10
SP == 32
DQ == 34
BSL == 92
LBRACE == 123
RBRACE == 125
PLUS == 43

IsDigit(b) == b >= 48 /\ b <= 57
IsUpper(b) == b >= 65 /\ b <= 90
IsLower(b) == b >= 97 /\ b <= 122
IsAlpha(b) == IsUpper(b) \/ IsLower(b)
UpB(b) == IF IsLower(b) THEN b - 32 ELSE b
LowB(b) == IF IsUpper(b) THEN b + 32 ELSE b

Upper(s) == [j \in 1..Len(s) |-> UpB(s[j])]
Lower(s) == [j \in 1..Len(s) |-> LowB(s[j])]

Last(s) == s[Len(s)]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

--------------------------------------------------------------------------------
(* Decimal numbers as sequences of digits 0..9 without leading zeros; <<0>> is 0. *)

RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 0 THEN StripZeros(Tail(d)) ELSE d

DigitsOf(s) == StripZeros([j \in 1..Len(s) |-> s[j] - 48])   \* s: nonempty ASCII digits

RECURSIVE LexLE(_, _, _)
LexLE(a, b, j) == IF j > Len(a) THEN TRUE
                  ELSE IF a[j] # b[j] THEN a[j] < b[j] ELSE LexLE(a, b, j + 1)
DigLE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLE(a, b, 1))

MaxU32 == <<4,2,9,4,9,6,7,2,9,5>>
MaxU64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
FitsU32(d) == DigLE(d, MaxU32)
FitsU64(d) == DigLE(d, MaxU64)

RECURSIVE FoldDig(_, _, _)
FoldDig(d, j, acc) == IF j > Len(d) THEN acc ELSE FoldDig(d, j + 1, acc * 10 + d[j])
(* Small numbers as integers; anything with more than 9 digits is "larger than every stream". *)
Huge == 2000000000
ToInt(d) == IF Len(d) > 9 THEN Huge ELSE FoldDig(d, 1, 0)

RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<n>> ELSE Append(NatDigits(n \div 10), n % 10)

RECURSIVE SameDig(_, _, _)
SameDig(a, b, j) == IF j > Len(a) THEN TRUE ELSE a[j] = b[j] /\ SameDig(a, b, j + 1)
EqDig(a, b) == Len(a) = Len(b) /\ SameDig(a, b, 1)

(* d + 1 on digit sequences *)
RECURSIVE DigInc(_)
DigInc(d) == IF Len(d) = 0 THEN <<1>>
             ELSE IF d[Len(d)] < 9 THEN [d EXCEPT ![Len(d)] = @ + 1]
             ELSE Append(DigInc(SubSeq(d, 1, Len(d) - 1)), 0)

--------------------------------------------------------------------------------
(* Strings (TLC's SubSeq works on strings) to byte sequences.                  *)

AsciiTable ==
  [c \in {" "} |-> 32] @@ [c \in {"!"} |-> 33] @@ [c \in {"\""} |-> 34] @@ [c \in {"#"} |-> 35]
  @@ [c \in {"$"} |-> 36] @@ [c \in {"%"} |-> 37] @@ [c \in {"&"} |-> 38] @@ [c \in {"'"} |-> 39]
  @@ [c \in {"("} |-> 40] @@ [c \in {")"} |-> 41] @@ [c \in {"*"} |-> 42] @@ [c \in {"+"} |-> 43]
  @@ [c \in {","} |-> 44] @@ [c \in {"-"} |-> 45] @@ [c \in {"."} |-> 46] @@ [c \in {"/"} |-> 47]
  @@ [c \in {":"} |-> 58] @@ [c \in {";"} |-> 59] @@ [c \in {"<"} |-> 60] @@ [c \in {"="} |-> 61]
  @@ [c \in {">"} |-> 62] @@ [c \in {"?"} |-> 63] @@ [c \in {"@"} |-> 64] @@ [c \in {"["} |-> 91]
  @@ [c \in {"\\"} |-> 92] @@ [c \in {"]"} |-> 93] @@ [c \in {"^"} |-> 94] @@ [c \in {"_"} |-> 95]
  @@ [c \in {"`"} |-> 96] @@ [c \in {"{"} |-> 123] @@ [c \in {"|"} |-> 124] @@ [c \in {"}"} |-> 125]
  @@ [c \in {"~"} |-> 126] @@ [c \in {"\r"} |-> 13] @@ [c \in {"\n"} |-> 10]
  @@ [c \in {"0"} |-> 48] @@ [c \in {"1"} |-> 49] @@ [c \in {"2"} |-> 50] @@ [c \in {"3"} |-> 51]
  @@ [c \in {"4"} |-> 52] @@ [c \in {"5"} |-> 53] @@ [c \in {"6"} |-> 54] @@ [c \in {"7"} |-> 55]
  @@ [c \in {"8"} |-> 56] @@ [c \in {"9"} |-> 57]

Letters == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LettersLow == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
LetterTable == [c \in {Letters[j] : j \in 1..26} |-> 64 + CHOOSE j \in 1..26 : Letters[j] = c]
               @@ [c \in {LettersLow[j] : j \in 1..26} |-> 96 + CHOOSE j \in 1..26 : LettersLow[j] = c]
CharCode == AsciiTable @@ LetterTable

B(str) == [j \in 1..Len(str) |-> CharCode[SubSeq(str, j, j)]]
=============================================================================
