------------------------------- MODULE Session --------------------------------
(* A client and a server that exchange messages with literals over a byte       *)
(* stream in each direction, as step operators on a state record s and the      *)
(* list ms of the client's messages:                                            *)
(*   [k    "cmd", or what only follows after a go-ahead: "auth", "idle"         *)
(*    tag  the tag of the (introducing) command,                                *)
(*    frs  its fragments [t |-> "line"/"lit", m |-> "Sync"/"NonSync", data],    *)
(*    fol  what the server expects next if it accepts: "cmd", "auth", "idle"]   *)
(* The client sends its fragments in order and waits for a go-ahead before each *)
(* synchronising literal and before each message that needs one. The server     *)
(* splits its stream with the machine of Fragmentizer, gives one go-ahead per   *)
(* synchronising announcement or skips the message, accepts a non-synchronising *)
(* literal or poisons the message. Both directions are cut anywhere.            *)
(* SessionMC checks the composition; SessionTrace replays recorded sessions of  *)
(* the real encoders, splitters and decoders.                                   *)
EXTENDS Fragmentizer

RECURSIVE Cat(_, _, _)
Cat(frs, j, acc) == IF j > Len(frs) THEN acc ELSE Cat(frs, j + 1, acc \o frs[j].data)
Full(m) == Cat(m.frs, 1, <<>>)

SInit(limit) ==
  [ci |-> 1, cf |-> 1, wait |-> FALSE,        \* client: message, fragment to send next; waiting for a go-ahead
   c2s |-> <<>>, s2c |-> <<>>,                \* bytes on the way
   sv |-> FInit(limit), pend |-> NoAnn,       \* server: its splitter, an announcement it has to decide on
   si |-> 1, got |-> <<>>,                    \* server: message it is receiving, outcomes so far
   cl |-> FInit(NoLimit),                     \* client: its splitter
   said |-> <<>>, heard |-> 0]                \* replies: all that were sent, number received

(* the message the client goes on with after message j was refused *)
RECURSIVE SkipTo(_, _)
SkipTo(ms, j) == IF j > Len(ms) \/ ms[j].k = "cmd" THEN j ELSE SkipTo(ms, j + 1)

NeedsGo(ms, i, f) == /\ i <= Len(ms)
                     /\ IF f = 1 THEN ms[i].k # "cmd"
                        ELSE ms[i].frs[f].t = "lit" /\ ms[i].frs[f].m = "Sync"

CanSend(ms, s) == s.ci <= Len(ms) /\ ~s.wait
Send(ms, s) ==
  LET last == s.cf = Len(ms[s.ci].frs)
      i == IF last THEN s.ci + 1 ELSE s.ci
      f == IF last THEN 1 ELSE s.cf + 1 IN
  [s EXCEPT !.c2s = @ \o ms[s.ci].frs[s.cf].data, !.ci = i, !.cf = f, !.wait = NeedsGo(ms, i, f)]

DeliverC(s, n) == [s EXCEPT !.c2s = SubSeq(@, n + 1, Len(@)), !.sv = Enqueue(@, SubSeq(s.c2s, 1, n))]
DeliverS(s, n) == [s EXCEPT !.s2c = SubSeq(@, n + 1, Len(@)), !.cl = Enqueue(@, SubSeq(s.s2c, 1, n))]

(* the server reads on; it first decides on an announcement (s.pend) *)
ServerStep(s) == LET r == Progress(s.sv) IN
  [s |-> [s EXCEPT !.sv = r.st, !.pend = r.f.ann], f |-> r.f]

Reply(s, k, tag, bytes) == [s EXCEPT !.said = Append(@, [k |-> k, tag |-> tag, b |-> bytes]), !.s2c = @ \o bytes]

(* decisions on an announcement *)
Decisions(s) == IF ~s.pend.some THEN {} ELSE IF s.pend.nonsync THEN {"take", "poison"} ELSE {"go", "skip"}
Decide(ms, s, d, tag, bytes) ==
  LET t == [s EXCEPT !.pend = NoAnn] IN
  CASE d = "take" -> t
    [] d = "poison" -> [t EXCEPT !.sv = Poison(@)]
    [] d = "go" -> Reply(t, "go", tag, bytes)
    [] d = "skip" -> Reply([t EXCEPT !.sv = Skip(@), !.got = Append(@, [i |-> s.si, out |-> "skipped"]), !.si = SkipTo(ms, @ + 1)], "no", tag, bytes)

(* a complete message: what decoding it must give *)
Outcome(s) == IF s.sv.exc THEN "toolong" ELSE IF s.sv.poi THEN "poisoned" ELSE "ok"
(* the server's answer: "go" if something is to follow and it wants it, else "done" or "no" *)
Answers(ms, s) == IF Outcome(s) # "ok" THEN {"no"} ELSE IF ms[s.si].fol = "cmd" THEN {"done"} ELSE {"go", "no"}
Finish(ms, s, a, tag, bytes) ==
  LET o == Outcome(s) IN
  Reply([s EXCEPT !.got = Append(@, [i |-> s.si, out |-> o]), !.si = IF a = "no" THEN SkipTo(ms, @ + 1) ELSE @ + 1], a, tag, bytes)

ClientStep(s) == LET r == Progress(s.cl) IN [s |-> [s EXCEPT !.cl = r.st], f |-> r.f]
(* the client has the next reply in full *)
Hear(ms, s) ==
  LET x == s.said[s.heard + 1]
      t == [s EXCEPT !.heard = @ + 1] IN
  IF ~s.wait THEN t
  ELSE IF x.k = "go" THEN [t EXCEPT !.wait = FALSE]
  ELSE IF x.k = "no" /\ x.tag = ms[s.ci].tag
       THEN LET j == SkipTo(ms, s.ci + 1) IN [t EXCEPT !.ci = j, !.cf = 1, !.wait = FALSE]
       ELSE t

Over(ms, s) == s.ci > Len(ms) /\ s.si > Len(ms) /\ s.heard = Len(s.said)
=============================================================================
