-------------------------------- MODULE SeqMC ---------------------------------
(* All small sequence sets: the normal form keeps the meaning, is ordered,       *)
(* disjoint, minimal and stable; walking visits exactly the denoted numbers.     *)
EXTENDS SequenceSet
CONSTANTS MaxLen, Edge          \* Edge: numbers at the upper end instead of the lower one

Nums == IF Edge THEN {<<1>>, <<4,2,9,4,9,6,7,2,9,3>>, <<4,2,9,4,9,6,7,2,9,4>>, MaxU32, <<>>} ELSE {<<1>>, <<2>>, <<3>>, <<5>>, <<>>}
Ls == IF Edge THEN {<<1>>, <<2>>, <<4,2,9,4,9,6,7,2,9,2>>, <<4,2,9,4,9,6,7,2,9,4>>, MaxU32} ELSE {<<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<8>>}
Probes == IF Edge THEN Ls \cup (Nums \ {<<>>}) \cup {<<3>>} ELSE {<<j>> : j \in 1..9}
Elems == {<<a>> : a \in Nums} \cup {<<a, b>> : a \in Nums, b \in Nums}

VARIABLE set
Init == set \in {<<e>> : e \in Elems}
Next == Len(set) < MaxLen /\ \E e \in Elems : set' = Append(set, e)
Spec == Init /\ [][Next]_set

N == NormalSet(set)
InSet == UNION {{set[j][q] : q \in 1..Len(set[j])} : j \in 1..Len(set)} \ {<<>>}
SameExisting == \A L \in Ls, n \in Probes : DigLE(n, L) => (Member(N, L, n) <=> Member(set, L, n))
SameWhenAllExist == \A L \in Ls : (\A n \in InSet : DigLE(n, L)) => \A n \in Probes : Member(N, L, n) <=> Member(set, L, n)
Ordered == \A j \in 1..Len(N) : \A q \in 1..Len(N) : j < q => Below(N[j], N[q])
Minimal == \A j \in 1..(Len(N) - 1) : LET s == SeqSucc(PairOf(N[j])[2]) IN ~SeqLE(PairOf(N[j + 1])[1], s)
Directed == \A j \in 1..Len(N) : Len(N[j]) = 2 => Below(<<N[j][1]>>, <<N[j][2]>>)
Stable == NormalSet(N) = N
Readable == SetOk(SetTxt(set, 1)) /\ SetRead(SetTxt(set, 1)) = set
WalkIsDenotation == \A L \in Ls : LET w == Iter(set, L, 12) IN
                      /\ \A j \in 1..Len(w) : Member(set, L, w[j])
                      /\ \A j \in 1..(Len(w) - 1) : DigLE(DigInc(w[j]), w[j + 1])
                      /\ Len(w) < 12 => \A n \in Probes : Member(set, L, n) => \E j \in 1..Len(w) : w[j] = n
NaiveIsDenotation == \A L \in Ls : LET w == Naive(set, L, 1, 12) IN
                      /\ \A j \in 1..Len(w) : Member(set, L, w[j])
                      /\ Len(w) < 12 => \A n \in Probes : Member(set, L, n) => \E j \in 1..Len(w) : w[j] = n
=============================================================================
