-------------------------------- MODULE TagGen --------------------------------
(* Tag generators: threads create generators, which take their instance number   *)
(* from a shared counter, and draw tags instance.counter from them; generators   *)
(* move between threads. Atomic: whether taking an instance number is one step.  *)
EXTENDS Bytes
CONSTANTS Threads, MaxGens, MaxDraws, Atomic

VARIABLES shared,     \* the shared counter
          gens,       \* generators: [inst, cnt]
          pending,    \* thread -> read but not yet written counter value (-1: none)
          tags        \* all tags drawn, as a sequence of byte strings

vars == <<shared, gens, pending, tags>>
Init == shared = 0 /\ gens = <<>> /\ pending = [t \in Threads |-> 99] /\ tags = <<>>

Dec(n) == LET d == NatDigits(n) IN [j \in 1..Len(d) |-> d[j] + 48]
TagText(g) == Dec(g.inst) \o <<46>> \o Dec(g.cnt)

New(t) == /\ Atomic /\ Len(gens) < MaxGens
          /\ gens' = Append(gens, [inst |-> shared, cnt |-> 0])
          /\ shared' = shared + 1 /\ UNCHANGED <<pending, tags>>
Read(t) == /\ ~Atomic /\ pending[t] = 99 /\ Len(gens) < MaxGens
           /\ pending' = [pending EXCEPT ![t] = shared] /\ UNCHANGED <<shared, gens, tags>>
Write(t) == /\ ~Atomic /\ pending[t] # 99
            /\ gens' = Append(gens, [inst |-> pending[t], cnt |-> 0])
            /\ shared' = pending[t] + 1 /\ pending' = [pending EXCEPT ![t] = 99] /\ UNCHANGED tags
Draw(t, g) == /\ Len(tags) < MaxDraws
              /\ tags' = Append(tags, TagText(gens[g]))
              /\ gens' = [gens EXCEPT ![g].cnt = @ + 1] /\ UNCHANGED <<shared, pending>>
Next == \E t \in Threads : New(t) \/ Read(t) \/ Write(t) \/ \E g \in 1..Len(gens) : Draw(t, g)
Spec == Init /\ [][Next]_vars

IsTagByte(b) == b > 32 /\ b < 127 /\ b \notin {40, 41, 123, 37, 42, 34, 92, 43}
Legal(t) == Len(t) > 0 /\ \A j \in 1..Len(t) : IsTagByte(t[j])
Distinct == \A j, k \in 1..Len(tags) : j # k => tags[j] # tags[k]
AllLegal == \A j \in 1..Len(tags) : Legal(tags[j])
=============================================================================
