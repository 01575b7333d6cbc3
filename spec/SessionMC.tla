------------------------------- MODULE SessionMC -------------------------------
(* All interleavings of client, network and server over small messages.          *)
EXTENDS Session
CONSTANTS Fault,      \* "none", or a mistake that must be noticed
          Limit, MaxMsgs

Lit(m, d) == [t |-> "lit", m |-> m, data |-> d]
Line(d) == [t |-> "line", m |-> "", data |-> d]
Msg(k, tag, frs, fol) == [k |-> k, tag |-> tag, frs |-> frs, fol |-> fol]
Plain(x) == Msg("cmd", x, <<Line(<<x, LF>>)>>, "cmd")
(* the literal data look like a command of their own *)
SyncM(x) == Msg("cmd", x, <<Line(<<x>> \o B("{2}\n")), Lit("Sync", <<122, LF>>), Line(<<LF>>)>>, "cmd")
NonM(x) == Msg("cmd", x, <<Line(<<x>> \o B("{2+}\n")), Lit("NonSync", <<122, LF>>), Line(<<LF>>)>>, "cmd")
BothM(x) == Msg("cmd", x, <<Line(<<x>> \o B("{2+}\n")), Lit("NonSync", <<122, LF>>), Line(B("{1}\n")), Lit("Sync", <<LF>>), Line(<<LF>>)>>, "cmd")
BothM2(x) == Msg("cmd", x, <<Line(<<x>> \o B("{1}\n")), Lit("Sync", <<LF>>), Line(B("{2+}\n")), Lit("NonSync", <<122, LF>>), Line(<<LF>>)>>, "cmd")
AuthM(x) == <<Msg("cmd", x, <<Line(<<x, LF>>)>>, "auth"), Msg("auth", x, <<Line(<<61, LF>>)>>, "cmd")>>
Kinds(x) == {<<Plain(x)>>, <<SyncM(x)>>, <<NonM(x)>>, <<BothM(x)>>, <<BothM2(x)>>, AuthM(x)}
MsgLists == {a \o b : a \in Kinds(97), b \in IF MaxMsgs > 2 THEN {u \o v : u \in Kinds(98), v \in Kinds(99)} ELSE Kinds(98)}

VARIABLES ms, s, fin, lied
vars == <<ms, s, fin, lied>>
(* fin: the server's splitter has just completed a message; lied: the fault happened *)

Go == <<43, LF>>
No(tag) == <<tag, 33, LF>>
Done(tag) == <<tag, 46, LF>>
Tag == ms[s.si].tag

Init == ms \in MsgLists /\ s = SInit(Limit) /\ fin = FALSE /\ lied = FALSE
ClientSend == /\ IF Fault = "eager" THEN s.ci <= Len(ms) ELSE CanSend(ms, s)
              /\ s' = Send(ms, [s EXCEPT !.wait = FALSE])
              /\ UNCHANGED <<ms, fin, lied>>
NetC == /\ Len(s.c2s) > 0
        /\ \E n \in {1, Len(s.c2s)} : s' = DeliverC(s, n)
        /\ UNCHANGED <<ms, fin, lied>>
NetS == /\ Len(s.s2c) > 0
        /\ \E n \in {1, Len(s.s2c)} : s' = DeliverS(s, n)
        /\ UNCHANGED <<ms, fin, lied>>
Read == /\ ~s.pend.some /\ ~fin /\ Len(s.sv.q) + (IF s.sv.ph = "lit" /\ s.sv.rem = 0 THEN 1 ELSE 0) > 0
        /\ LET r == ServerStep(s) IN s' = r.s /\ fin' = (r.f.t = "line" /\ ~r.f.ann.some)
        /\ UNCHANGED <<ms, lied>>
Choose == /\ s.si <= Len(ms)
          /\ \E d \in Decisions(s) : s' = Decide(ms, s, d, Tag, IF d = "go" THEN Go ELSE No(Tag))
          /\ UNCHANGED <<ms, fin, lied>>
(* mistakes a server can make *)
Wrong == /\ s.si <= Len(ms) /\ s.pend.some /\ ~lied
         /\ \/ Fault = "skip_nonsync" /\ s.pend.nonsync
               /\ s' = Decide(ms, s, "skip", Tag, No(Tag))
            \/ Fault = "poison_sync" /\ ~s.pend.nonsync
               /\ s' = Decide(ms, s, "poison", Tag, <<>>)
            \/ Fault = "go_nonsync" /\ s.pend.nonsync
               /\ s' = Decide(ms, s, "go", Tag, Go)
         /\ lied' = TRUE /\ UNCHANGED <<ms, fin>>
Answer == /\ fin /\ s.si <= Len(ms)
          /\ \E a \in Answers(ms, s) : s' = Finish(ms, s, a, Tag, IF a = "go" THEN Go ELSE IF a = "no" THEN No(Tag) ELSE Done(Tag))
          /\ fin' = FALSE /\ UNCHANGED <<ms, lied>>
Listen == /\ Len(s.cl.q) > 0
          /\ LET r == ClientStep(s) IN
             s' = IF r.f.t = "line" THEN Hear(ms, r.s) ELSE r.s
          /\ UNCHANGED <<ms, fin, lied>>
Next == ClientSend \/ NetC \/ NetS \/ Read \/ Choose \/ Wrong \/ Answer \/ Listen
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

--------------------------------------------------------------------------------
(* what the server takes for a message is one, in order, and in full *)
InSync == fin => /\ s.si <= Len(ms)
                 /\ (Limit = NoLimit => s.sv.buf = Full(ms[s.si]))
                 /\ LET b == Full(ms[s.si]) n == Min2(Limit, Len(b)) IN s.sv.buf = SubSeq(b, 1, n) /\ s.sv.exc = (n < Len(b))
(* what it must decide on is an announcement of the client's message *)
Ann == s.pend.some => /\ s.si <= Len(ms)
                      /\ \E j \in 1..(Len(ms[s.si].frs) - 1) :
                           /\ Len(Cat(SubSeq(ms[s.si].frs, 1, j), 1, <<>>)) = s.sv.end
                           /\ ms[s.si].frs[j + 1].t = "lit" /\ (ms[s.si].frs[j + 1].m = "NonSync") = s.pend.nonsync
                           /\ ToInt(s.pend.len) = Len(ms[s.si].frs[j + 1].data)
(* the client never sends a synchronising literal the server did not ask for *)
Gos == Len(SelectSeq(s.said, LAMBDA x : x.k = "go"))
(* replies arrive unchanged and in order *)
Heard == /\ s.heard <= Len(s.said)
         /\ Complete(s.cl) => s.cl.buf = s.said[s.heard].b
(* every message is dealt with: nobody waits for ever *)
NoDeadlock == ~ENABLED Next => Over(ms, s)
Terminates == <>Over(ms, s)
=============================================================================
