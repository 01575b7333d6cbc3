----------------------------- MODULE SequenceSet ------------------------------
(* Sequence sets (RFC 3501 sequence-set): what they denote, how they are walked, *)
(* how they are built from Rust numbers and ranges, and their normal form.       *)
(* An element is <<a>> (single) or <<a, b>> (range, either direction); a number  *)
(* is a digit sequence, <<>> is "*".                                             *)
EXTENDS Peg

Expand(x, L) == IF Len(x) = 0 THEN L ELSE x
Lo(el, L) == LET a == Expand(el[1], L) b == Expand(el[Len(el)], L) IN IF DigLE(a, b) THEN a ELSE b
Hi(el, L) == LET a == Expand(el[1], L) b == Expand(el[Len(el)], L) IN IF DigLE(a, b) THEN b ELSE a

(* the denotation *)
Member(set, L, n) == \E j \in 1..Len(set) : DigLE(Lo(set[j], L), n) /\ DigLE(n, Hi(set[j], L))

(* in order, without repetition: the least denoted number that is larger than n *)
Larger(set, L, n) ==
  LET cand == {IF DigLE(Lo(set[j], L), n) THEN (IF DigLE(Hi(set[j], L), n) THEN <<>> ELSE DigInc(n)) ELSE Lo(set[j], L) : j \in 1..Len(set)} \ {<<>>} IN
  IF cand = {} THEN <<>> ELSE CHOOSE x \in cand : \A y \in cand : DigLE(x, y)
RECURSIVE Walk(_, _, _, _)
Walk(set, L, n, cap) == IF cap = 0 THEN <<>>
                        ELSE LET x == Larger(set, L, n) IN IF x = <<>> THEN <<>> ELSE <<x>> \o Walk(set, L, x, cap - 1)
Iter(set, L, cap) == Walk(set, L, <<0>>, cap)
(* the same, said of a given walk w *)
IsIter(w, set, L, cap) == /\ Len(w) <= cap
                          /\ \A j \in 1..Len(w) : w[j] = Larger(set, L, IF j = 1 THEN <<0>> ELSE w[j - 1])
                          /\ Len(w) < cap => Larger(set, L, IF Len(w) = 0 THEN <<0>> ELSE w[Len(w)]) = <<>>

(* in the given order and direction, with repetition *)
RECURSIVE DigDecR(_)
DigDecR(d) == IF d[Len(d)] > 0 THEN [d EXCEPT ![Len(d)] = @ - 1] ELSE Append(DigDecR(SubSeq(d, 1, Len(d) - 1)), 9)
DigDec(d) == StripZeros(DigDecR(d))       \* d > 0
RECURSIVE Run(_, _, _)
Run(a, b, cap) == IF cap = 0 THEN <<>> ELSE IF a = b THEN <<a>> ELSE <<a>> \o Run(IF DigLE(a, b) THEN DigInc(a) ELSE DigDec(a), b, cap - 1)
RECURSIVE Naive(_, _, _, _)
Naive(set, L, j, cap) ==
  IF j > Len(set) \/ cap <= 0 THEN <<>>
  ELSE LET r == Run(Expand(set[j][1], L), Expand(set[j][Len(set[j])], L), cap) IN r \o Naive(set, L, j + 1, cap - Len(r))

(* the normal form, as elements *)
PairOf(el) == LET a == el[1] b == el[Len(el)] IN IF SeqLE(a, b) THEN <<a, b>> ELSE <<b, a>>
ElOf(p) == IF p[1] = p[2] THEN <<p[1]>> ELSE p
NormalSet(set) == LET ps == Normal([j \in 1..Len(set) |-> PairOf(set[j])]) IN [j \in 1..Len(ps) |-> ElOf(ps[j])]

(* text *)
ElTxt(el) == IF Len(el) = 1 THEN SeqTxt(el[1]) ELSE SeqTxt(el[1]) \o <<58>> \o SeqTxt(el[2])
RECURSIVE SetTxt(_, _)
SetTxt(set, j) == IF j > Len(set) THEN <<>> ELSE (IF j > 1 THEN <<44>> ELSE <<>>) \o ElTxt(set[j]) \o SetTxt(set, j + 1)
NumOk(bs) == bs = <<42>> \/ (Len(bs) > 0 /\ (\A j \in 1..Len(bs) : IsDigit(bs[j])) /\ bs[1] # 48 /\ FitsU32(DigitsOf(bs)))
ElOk(bs) == LET ab == SplitAt(bs, 58) IN Len(ab) \in {1, 2} /\ \A j \in 1..Len(ab) : NumOk(ab[j])
SetOk(bs) == LET es == SplitAt(bs, 44) IN \A j \in 1..Len(es) : ElOk(es[j])
ElRead(bs) == LET ab == SplitAt(bs, 58) IN [j \in 1..Len(ab) |-> SeqNum(ab[j])]
SetRead(bs) == LET es == SplitAt(bs, 44) IN [j \in 1..Len(es) |-> ElRead(es[j])]

(* Rust numbers: [neg, d]. nz: a NonZeroU32, whose largest value stands for "*" *)
Fits(x) == ~x.neg /\ x.d # <<0>> /\ FitsU32(x.d)
AsId(x, nz) == IF nz /\ x.d = MaxU32 THEN <<>> ELSE x.d
One == <<1>>
No == [ok |-> FALSE, el |-> <<>>]
Is(el) == [ok |-> TRUE, el |-> el]
(* the element made of a number or a range; half open ranges may not be empty   *)
FromRust(form, a, b, nz) ==
  CASE form = "num" -> IF Fits(a) THEN Is(<<AsId(a, nz)>>) ELSE No
    [] form = "full" -> Is(<<One, <<>>>>)
    [] form = "from" -> IF Fits(a) THEN Is(<<AsId(a, nz), <<>>>>) ELSE No
    [] form = "toincl" -> IF Fits(b) THEN Is(<<One, AsId(b, nz)>>) ELSE No
    [] form = "incl" -> IF Fits(a) /\ Fits(b) THEN Is(<<AsId(a, nz), AsId(b, nz)>>) ELSE No
    [] form = "to" -> IF ~b.neg /\ b.d # <<0>> /\ b.d # One /\ FitsU32(DigDec(b.d)) THEN Is(<<One, DigDec(b.d)>>) ELSE No
    [] form = "range" -> IF Fits(a) /\ ~b.neg /\ DigLE(DigInc(a.d), b.d) /\ FitsU32(DigDec(b.d)) THEN Is(<<AsId(a, nz), DigDec(b.d)>>) ELSE No

(* order of elements: everything of one below everything of the other            *)
Below(x, y) == LET p == PairOf(x) q == PairOf(y) IN SeqLE(p[2], q[1]) /\ p[2] # q[1]
=============================================================================
