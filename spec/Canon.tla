--------------------------------- MODULE Canon ---------------------------------
(* Helpers on messages and their canonical spelling, shared by the conformance   *)
(* modules.                                                                      *)
EXTENDS Values

Flatten(e) == SelectSeq(e, LAMBDA b : b < 256)
TagOfCmd(b) == LET q == Scan(Cls["tag"], b, 1) IN SubSeq(b, 1, q - 1)
HasLit(m) == m \in {"cmd", "resp"}

(* a literal report: length, mode and tag as far as the message kind reports them *)
LitOk(m, b, n, mode, r) == /\ r.n = n
                           /\ m = "cmd" => (r.m = mode /\ r.t = TagOfCmd(b))

(* fragments as sequence of [t, m, data] *)
Marks(e) == SelectSeq([j \in 1..Len(e) |-> IF e[j] >= 256 THEN j ELSE 0], LAMBDA j : j > 0)
RECURSIVE Frs(_, _, _, _, _)
Frs(e, ms, j, from, acc) ==      \* ms: the places of the marks, j: the next of them, from: the first byte not yet in a fragment
  LET line(to) == [t |-> "line", m |-> "", data |-> SubSeq(e, from, to)] IN
  IF j > Len(ms) THEN IF from <= Len(e) THEN Append(acc, line(Len(e))) ELSE acc
  ELSE IF e[ms[j]] = 259 THEN Frs(e, ms, j + 1, ms[j] + 1, Append(acc, line(ms[j] - 1)))
  ELSE Frs(e, ms, j + 2, ms[j + 1] + 1,
           acc \o <<line(ms[j] - 1), [t |-> "lit", m |-> IF e[ms[j]] = LitSync THEN "Sync" ELSE "NonSync", data |-> SubSeq(e, ms[j] + 1, ms[j + 1] - 1)]>>)
FragsOf(e) == Frs(e, Marks(e), 1, 1, <<>>)
EndsCrLf(x) == Len(x) >= 2 /\ x[Len(x)] = LF /\ x[Len(x) - 1] = CR
================================================================================
