------------------------------- MODULE Values --------------------------------
(* Values as token sequences: equality up to member order, canonical sets.      *)
EXTENDS ImapGrammar

(* the value tokens with objects as sets of members: the order of members does  *)
(* not matter                                                                   *)
RECURSIVE NVal(_, _), NObj(_, _, _), NArr(_, _, _)
RECURSIVE NEndStr(_, _)
NEndStr(v, i) == IF v[i] = ")s" THEN i
                 ELSE IF i + Block <= Len(v) /\ \A j \in i..(i + Block) : v[j] # ")s" THEN NEndStr(v, i + Block + 1)
                 ELSE NEndStr(v, i + 1)
RECURSIVE NEndNum(_, _)
NEndNum(v, i) == IF i <= Len(v) /\ v[i] \in {"0","1","2","3","4","5","6","7","8","9","-"} THEN NEndNum(v, i + 1) ELSE i
Leaf(v, i, j) == [i |-> j, x |-> [q \in 1..(j - i) |-> <<v[i + q - 1], {}>>]]
NObj(v, i, acc) == IF v[i] = "}" THEN [i |-> i + 1, x |-> <<<<"{", acc>>>>]
                   ELSE LET m == NVal(v, i + 1) IN NObj(v, m.i, acc \cup {<<<<v[i], {}>>>> \o m.x})
NArr(v, i, acc) == IF v[i] = "]" THEN [i |-> i + 1, x |-> Flat(Append(acc, <<<<"]", {}>>>>))]
                   ELSE LET m == NVal(v, i) IN NArr(v, m.i, Append(acc, m.x))
NVal(v, i) == CASE v[i] = "{" -> NObj(v, i + 1, {})
                [] v[i] = "[" -> NArr(v, i + 1, <<<<<<"[", {}>>>>>>)
                [] v[i] = "s(" -> Leaf(v, i, NEndStr(v, i) + 1)
                [] v[i] = "n" -> Leaf(v, i, NEndNum(v, i + 1))
                [] OTHER -> Leaf(v, i, i + 1)
SameV(a, b) == a = b \/ NVal(a, 1).x = NVal(b, 1).x

(* the value with every sequence set in its canonical form *)
TSingle == C("'Single'")
TRange == C("'Range'")
TValue == C("'Value'")
TAst == C("'Asterisk'")
At(v, i, t) == i + Len(t) - 1 <= Len(v) /\ SubSeq(v, i, i + Len(t) - 1) = t
Obj(t) == <<"{", "type:">> \o t
No == [i |-> 0, x |-> <<>>]
DigVal(t) == CHOOSE d \in 0..9 : DigTok[d + 1] = t
SNum(v, i) ==       \* index behind, digits (<<>>: *)
  IF At(v, i, Obj(TAst) \o <<"}">>) THEN [i |-> i + Len(Obj(TAst)) + 1, x |-> <<>>]
  ELSE IF At(v, i, Obj(TValue) \o <<"content:", "n">>)
       THEN LET a == i + Len(Obj(TValue)) + 2 b == NEndNum(v, a) IN [i |-> b + 1, x |-> [q \in 1..(b - a) |-> DigVal(v[a + q - 1])]]
       ELSE No
SElem(v, i) ==      \* index behind, pair
  IF At(v, i, Obj(TSingle) \o <<"content:", "{">>)
  THEN LET a == SNum(v, i + Len(Obj(TSingle)) + 1) IN IF a.i = 0 THEN No ELSE [i |-> a.i + 1, x |-> <<a.x, a.x>>]
  ELSE IF At(v, i, Obj(TRange) \o <<"content:", "[", "{">>)
  THEN LET a == SNum(v, i + Len(Obj(TRange)) + 2) b == SNum(v, a.i) IN
       IF a.i = 0 THEN No ELSE [i |-> b.i + 2, x |-> IF SeqLE(a.x, b.x) THEN <<a.x, b.x>> ELSE <<b.x, a.x>>]
  ELSE No
RECURSIVE SSet(_, _, _)
SSet(v, i, acc) == IF v[i] = "]" THEN [i |-> i + 1, x |-> acc]
                   ELSE LET m == SElem(v, i) IN IF m.i = 0 THEN No ELSE SSet(v, m.i, Append(acc, m.x))
NumV(a) == IF Len(a) = 0 THEN Obj(TAst) \o <<"}">> ELSE Obj(TValue) \o <<"content:">> \o NumToks(a) \o <<"}">>
PairV(p) == IF p[1] = p[2] THEN Obj(TSingle) \o <<"content:">> \o NumV(p[1]) \o <<"}">>
            ELSE Obj(TRange) \o <<"content:", "[">> \o NumV(p[1]) \o NumV(p[2]) \o <<"]", "}">>
RECURSIVE CanonR(_, _, _, _)
CanonR(v, i, from, acc) ==      \* acc: the parts up to from
  IF i > Len(v) THEN Flat(Append(acc, SubSeq(v, from, Len(v))))
  ELSE IF v[i] = "[" /\ i < Len(v) /\ v[i + 1] = "{" /\ SElem(v, i + 1).i # 0
  THEN LET m == SSet(v, i + 1, <<>>) ps == Normal(m.x) IN
       CanonR(v, m.i, m.i, acc \o <<SubSeq(v, from, i - 1), <<"[">> \o Flat([q \in 1..Len(ps) |-> PairV(ps[q])]) \o <<"]">>>>)
  ELSE IF i + Block <= Len(v) /\ \A j \in (i + 1)..(i + Block) : v[j] # "[" THEN CanonR(v, i + Block + 1, from, acc)
  ELSE CanonR(v, i + 1, from, acc)
CanonV(v) == CanonR(v, 1, 1, <<>>)
SameCanon(a, b) == SameV(a, b) \/ SameV(CanonV(a), CanonV(b))
=============================================================================
