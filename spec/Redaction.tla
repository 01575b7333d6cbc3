------------------------------ MODULE Redaction -------------------------------
(* Non-interference of debug output: a message is split into its public part and *)
(* its secrets; two messages with equal public parts must be observed equal.     *)
EXTENDS Values

Hidden == <<"hidden">>
SecretKeys == {"password:", "initial_response:"}
(* the public projection of a value: the content of secret members is hidden,    *)
(* their absence (null) is not; a data line is either a cancellation or hidden   *)
RECURSIVE Mask(_, _, _)
Mask(v, i, acc) ==
  IF i > Len(v) THEN acc
  ELSE IF v[i] \in SecretKeys /\ v[i + 1] # "null" THEN Mask(v, NVal(v, i + 1).i, acc \o <<v[i]>> \o Hidden)
  ELSE Mask(v, i + 1, Append(acc, v[i]))
ContinueHead == <<"{", "type:">> \o C("'Continue'") \o <<"content:">>
Public(v) == IF At(v, 1, ContinueHead) THEN ContinueHead \o Hidden ELSE Mask(v, 1, <<>>)

(* xs: observed executions [v |-> value, o, p |-> plain and pretty rendering].    *)
(* Transitivity: it is enough to compare each with the first of its public part.  *)
RECURSIVE FirstLike(_, _, _)
FirstLike(pubs, p, j) == IF pubs[j] = p THEN j ELSE FirstLike(pubs, p, j + 1)
Leaks(xs) == LET pubs == [j \in 1..Len(xs) |-> Public(xs[j].v)] IN
             {j \in 1..Len(xs) : LET f == FirstLike(pubs, pubs[j], 1) IN xs[j].o # xs[f].o \/ xs[j].p # xs[f].p}
=============================================================================
