---------------------------- MODULE GrammarExport ----------------------------
(* Writes the grammar as JSON for the sentence sampler of the test driver.      *)
EXTENDS ImapGrammar, Json, IOUtils
VARIABLE done
Init == done = JsonSerialize(IOEnv.VERIF_GRAMMAR, [g |-> Gram, root |-> Root, cls |-> Cls])
Next == FALSE /\ UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================
