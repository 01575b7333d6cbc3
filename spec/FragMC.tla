------------------------------- MODULE FragMC -------------------------------
(* Exhaustive small-scope check: the incremental splitter machine, under every  *)
(* interleaving of enqueue / progress / poison / skip, refines Frame.           *)
EXTENDS Fragmentizer
CONSTANTS MaxFree,     \* free bytes appended after the chosen seed prefix
          Limits,      \* size limits to explore (NoLimit = 999999999)
          WithOps      \* TRUE: also poison and skip

Alphabet == {LF, CR, LBRACE, 49, PLUS, RBRACE}
Seeds == { <<>>, B("{1}"), B("{2+}"), B("{1}\r\n"), B("a {0}\r\n"), B("{2}\nx"), B("{1}\r\n{{1}\r") }

VARIABLES st, fed, base, out, taken, msg0, idle, poisoned, free
vars == <<st, fed, base, out, taken, msg0, idle, poisoned, free>>
(* base: stream position at which the current framing epoch began (0, or the    *)
(* position of the last skip); out: fragments reported in this epoch; taken:    *)
(* bytes taken in; msg0: value of taken at the start of the current message;    *)
(* idle: the last call was a progress call that reported nothing.              *)

Init == /\ \E l \in Limits : st = FInit(l)
        /\ \E s \in Seeds : fed = s
        /\ base = 0 /\ out = <<>> /\ taken = 0 /\ msg0 = 0 /\ idle = FALSE /\ poisoned = FALSE
        /\ free = MaxFree

(* The seed bytes are enqueued first, cut anywhere: modelled by delivering the  *)
(* backlog fed[enq+1..] piecewise.                                             *)
Enq == taken + Len(st.q)      \* number of bytes delivered to the machine so far

Deliver == /\ Enq < Len(fed)
           /\ \E n \in 1..(Len(fed) - Enq) :
                st' = Enqueue(st, SubSeq(fed, Enq + 1, Enq + n))
           /\ idle' = FALSE
           /\ UNCHANGED <<fed, base, out, taken, msg0, poisoned, free>>

Grow == /\ free > 0 /\ Enq = Len(fed)
        /\ \E b \in Alphabet : fed' = Append(fed, b)
        /\ free' = free - 1
        /\ UNCHANGED <<st, base, out, taken, msg0, idle, poisoned>>

DoProgress ==
  LET r == Progress(st)
      newmsg == st.ph = "none"
      n == Len(st.q) - Len(r.st.q)
  IN /\ st' = r.st
     /\ taken' = taken + n
     /\ msg0' = IF newmsg THEN taken ELSE msg0
     /\ poisoned' = IF newmsg THEN FALSE ELSE poisoned
     /\ out' = IF r.f.t = "none" THEN out ELSE Append(out, r.f)
     /\ idle' = (r.f.t = "none")
     /\ UNCHANGED <<fed, base, free>>

DoPoison == /\ WithOps /\ ~poisoned /\ st' = Poison(st) /\ poisoned' = TRUE
            /\ UNCHANGED <<fed, base, out, taken, msg0, idle, free>>

DoSkip == /\ WithOps /\ taken > base
          /\ st' = Skip(st) /\ poisoned' = FALSE
          /\ base' = taken /\ msg0' = taken /\ out' = <<>> /\ idle' = FALSE
          /\ UNCHANGED <<fed, taken, free>>

Next == Deliver \/ Grow \/ DoProgress \/ DoPoison \/ DoSkip
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Epoch == SubSeq(fed, base + 1, Enq)      \* the stream of the current epoch as delivered so far
Frames == Frame(Epoch)

(* C01: what was reported is a prefix of the framing of the stream ... *)
ReportedIsFraming ==
  LET fr == Frames IN
  /\ Len(out) <= Len(fr)
  /\ \A j \in 1..Len(out) : out[j] = fr[j].f
(* ... C02: and all of it once progress reports nothing, whatever the chunking. *)
NothingWithheld == idle => Len(out) = Len(Frames)
(* The machine is between messages only after a line without announcement, and *)
(* leaves that place only by starting the next message right behind that line.  *)
BoundaryExact ==
  LET fr == Frames
      lastDone == Len(out) > 0 /\ fr[Len(out)].done
      lastEnd == base + fr[Len(out)].at - 1 + (fr[Len(out)].f.end - fr[Len(out)].f.start)
  IN /\ Complete(st) => lastDone /\ taken = lastEnd
     /\ (lastDone /\ ~Complete(st)) => msg0 = lastEnd
     /\ (Len(out) > 0 /\ ~lastDone) => ~Complete(st)
(* C03: the buffer is the first min(limit, n) bytes of the n taken of the message. *)
BufferExact ==
  LET n == taken - msg0
      keep == IF st.limit = NoLimit THEN n ELSE Min2(n, st.limit)
  IN /\ st.buf = SubSeq(fed, msg0 + 1, msg0 + keep)
     /\ st.exc = (keep < n)
NoLoss == st.q = SubSeq(fed, taken + 1, taken + Len(st.q))
(* C04 *)
PoisonExact == st.poi = poisoned
=============================================================================
