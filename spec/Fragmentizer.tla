---------------------------- MODULE Fragmentizer ----------------------------
(* The stream splitter: (1) a declarative definition of framing (Frame), and    *)
(* (2) the incremental machine with size limit, poisoning and skipping as step  *)
(* operators on a state record. FragMC checks (2) against (1) exhaustively in a *)
(* small scope; FragTrace replays recorded executions of the real Fragmentizer  *)
(* against both.                                                                *)
EXTENDS Bytes

--------------------------------------------------------------------------------
(* 1. Declarative framing.                                                     *)

RECURSIVE FindLF(_, _)
FindLF(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = LF THEN i
                ELSE IF i + 64 <= Len(s) /\ \A j \in i..(i + 64) : s[j] # LF THEN FindLF(s, i + 65)   \* keeps the recursion flat
                ELSE FindLF(s, i + 1)

RECURSIVE LastOpen(_, _)
LastOpen(t, i) == IF i = 0 THEN 0 ELSE IF t[i] = LBRACE THEN i
                  ELSE IF i > 64 /\ \A j \in (i - 64)..i : t[j] # LBRACE THEN LastOpen(t, i - 65) ELSE LastOpen(t, i - 1)

NoAnn == [some |-> FALSE, nonsync |-> FALSE, len |-> <<0>>]

(* The announcement made by a line whose text before the line ending is t. *)
Announced(t) ==
  IF Len(t) = 0 \/ t[Len(t)] # RBRACE THEN NoAnn
  ELSE LET p == LastOpen(t, Len(t))
           inner == IF p = 0 THEN <<>> ELSE SubSeq(t, p + 1, Len(t) - 1)
           plus == Len(inner) > 0 /\ inner[Len(inner)] = PLUS
           ds == IF plus THEN SubSeq(inner, 1, Len(inner) - 1) ELSE inner
       IN IF p = 0 \/ Len(ds) = 0 \/ (\E j \in 1..Len(ds) : ~IsDigit(ds[j])) THEN NoAnn
          ELSE LET d == DigitsOf(ds) IN
               IF FitsU32(d) THEN [some |-> TRUE, nonsync |-> plus, len |-> d] ELSE NoAnn

LineFrag(start, end, ann, crlf) == [t |-> "line", start |-> start, end |-> end, ann |-> ann, crlf |-> crlf]
LitFrag(start, end) == [t |-> "lit", start |-> start, end |-> end, ann |-> NoAnn, crlf |-> FALSE]

(* Frame(s): all complete fragments of stream s, each with its place in the     *)
(* stream (at) and whether it completes a message (done).                      *)
RECURSIVE FrameFrom(_, _, _, _, _)
FrameFrom(s, i, base, lit, acc) ==   \* i: next stream index; base: stream index before the message; lit: pending literal
  IF lit.some
  THEN LET n == ToInt(lit.len) IN
       IF Len(s) - (i - 1) < n THEN acc
       ELSE FrameFrom(s, i + n, base, NoAnn,
              Append(acc, [f |-> LitFrag(i - 1 - base, i - 1 - base + n), at |-> i, done |-> FALSE]))
  ELSE LET j == FindLF(s, i) IN
       IF j = 0 THEN acc
       ELSE LET crlf == j > i /\ s[j - 1] = CR
                text == SubSeq(s, i, IF crlf THEN j - 2 ELSE j - 1)
                ann == Announced(text)
                fr == [f |-> LineFrag(i - 1 - base, j - base, ann, crlf), at |-> i, done |-> ~ann.some]
            IN FrameFrom(s, j + 1, IF ann.some THEN base ELSE j, ann, Append(acc, fr))

Frame(s) == FrameFrom(s, 1, 0, NoAnn, <<>>)

--------------------------------------------------------------------------------
(* 2. The incremental machine.                                                 *)

NoLimit == 999999999
LB(k, len, ann) == [k |-> k, len |-> len, ann |-> ann]
Other == LB("other", <<0>>, NoAnn)

FInit(limit) ==
  [q |-> <<>>, ph |-> "line", lb |-> Other, start |-> 0, end |-> 0, rem |-> 0,
   buf |-> <<>>, exc |-> FALSE, poi |-> FALSE, limit |-> limit]

(* One byte of the line automaton: the new memory of what was just read. *)
LineByte(lb, b) ==
  IF b = CR THEN LB("cr", <<0>>, IF lb.k = "close" THEN lb.ann ELSE NoAnn)
  ELSE IF b = LBRACE THEN LB("open", <<0>>, NoAnn)
  ELSE IF lb.k = "open" /\ IsDigit(b) THEN LB("digit", <<b - 48>>, NoAnn)
  ELSE IF lb.k = "digit" /\ IsDigit(b)
       THEN LET d == StripZeros(Append(lb.len, b - 48)) IN
            IF FitsU32(d) THEN LB("digit", d, NoAnn) ELSE Other
  ELSE IF lb.k = "digit" /\ b = PLUS THEN LB("plus", lb.len, NoAnn)
  ELSE IF lb.k \in {"digit", "plus"} /\ b = RBRACE
       THEN LB("close", <<0>>, [some |-> TRUE, nonsync |-> lb.k = "plus", len |-> lb.len])
  ELSE Other

(* Scan queue q from index i for the end of the line. *)
RECURSIVE Scan(_, _, _)
Scan(q, i, lb) ==
  IF i > Len(q) THEN [hit |-> FALSE, n |-> Len(q), lb |-> lb, ann |-> NoAnn, crlf |-> FALSE]
  ELSE IF q[i] = LF
       THEN [hit |-> TRUE, n |-> i, lb |-> Other,
             ann |-> IF lb.k \in {"close", "cr"} THEN lb.ann ELSE NoAnn, crlf |-> lb.k = "cr"]
       ELSE Scan(q, i + 1, LineByte(lb, q[i]))

(* Take n bytes out of the queue into the (bounded) message buffer. *)
Take(st, n) ==
  LET room == IF st.limit = NoLimit THEN n ELSE st.limit - Len(st.buf)
      keep == Min2(room, n)
  IN [st EXCEPT !.q = SubSeq(@, n + 1, Len(@)), !.buf = @ \o SubSeq(st.q, 1, keep), !.exc = @ \/ keep < n]

Fresh(st) == [st EXCEPT !.exc = FALSE, !.poi = FALSE, !.buf = <<>>, !.ph = "line", !.lb = Other,
                        !.start = 0, !.end = 0, !.rem = 0]

Enqueue(st, bytes) == [st EXCEPT !.q = @ \o bytes]

NoFrag == [t |-> "none", start |-> 0, end |-> 0, ann |-> NoAnn, crlf |-> FALSE]

(* One progress step: [st, f]. *)
Progress(st0) ==
  LET st == IF st0.ph = "none" THEN Fresh(st0) ELSE st0 IN
  IF st.ph = "line"
  THEN LET r == Scan(st.q, 1, st.lb)
           t == [Take(st, r.n) EXCEPT !.end = st.end + r.n, !.lb = r.lb]
       IN IF ~r.hit THEN [st |-> t, f |-> NoFrag]
          ELSE [st |-> IF r.ann.some
                       THEN [t EXCEPT !.ph = "lit", !.start = t.end, !.rem = ToInt(r.ann.len)]
                       ELSE [t EXCEPT !.ph = "none"],
                f |-> LineFrag(st.start, t.end, r.ann, r.crlf)]
  ELSE IF Len(st.q) < st.rem
       THEN [st |-> [Take(st, Len(st.q)) EXCEPT !.end = st.end + Len(st.q), !.rem = st.rem - Len(st.q)],
             f |-> NoFrag]
       ELSE LET e == st.end + st.rem
                t == [Take(st, st.rem) EXCEPT !.end = e, !.rem = 0, !.ph = "line", !.lb = Other, !.start = e]
            IN [st |-> t, f |-> LitFrag(st.start, e)]

Poison(st) == [st EXCEPT !.poi = TRUE]
Skip(st) == Fresh(st)

Complete(st) == st.ph = "none"

(* Bytes of a fragment as far as they are still buffered. *)
FragBytes(st, f) == SubSeq(st.buf, Min2(f.start, Len(st.buf)) + 1, Min2(f.end, Len(st.buf)))

(* Tag recovery: bytes before the first SP of the first line, if a legal tag. *)
IsTagChar(b) == b > 32 /\ b < 127 /\ b \notin {40, 41, 123, 37, 42, 34, 92, 43}
RECURSIVE FindSP(_, _)
FindSP(s, i) == IF i > Len(s) \/ s[i] = LF THEN 0 ELSE IF s[i] = SP THEN i ELSE FindSP(s, i + 1)
TagOf(buf) ==   \* [some, tag]
  LET p == FindSP(buf, 1) IN
  IF p <= 1 \/ (\E j \in 1..(p - 1) : ~IsTagChar(buf[j])) THEN [some |-> FALSE, tag |-> <<>>]
  ELSE [some |-> TRUE, tag |-> SubSeq(buf, 1, p - 1)]
=============================================================================
