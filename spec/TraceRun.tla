------------------------------ MODULE TraceRun ------------------------------
(* Shared driver of all conformance modules: walks the recorded executions of   *)
(* the real code (one JSON record per line) and lets the specification judge    *)
(* each. A record the specification does not allow is printed as MISMATCH and   *)
(* counted; NoMismatch is the invariant TLC checks.                             *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.VERIF_SHARD)
=============================================================================
