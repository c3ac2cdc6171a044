--------------------------- MODULE TokenBufferImpl ---------------------------
(* How token streams work: the buffer that laps provides, with its own       *)
(* peeking, and a stream that only defines next and unread, with the trait's *)
(* default methods. Checked to refine TokenStream for every script up to     *)
(* MAXLEN items and every history up to MAXOPS operations.                   *)
EXTENDS TokenStream, TLC, Json, Randomization

CONSTANTS MAXLEN, MAXOPS, Kinds, SAMPLE, Variant

VARIABLES kind, sc,        \* the stream and the tokenizer's script
          p, buf,          \* calls of the tokenizer; the tokens in front, first to deliver first
          hist,            \* tokens delivered that can be unread
          abs, ops
vars == <<kind, sc, p, buf, hist, abs, ops>>
View == <<kind, sc, p, buf, hist, abs, Len(ops)>>

\* Token i has kind i mod 3; n + 1 is behind the end, n + 2 is a spare one.
Toks(n) == [i \in 1..n + 2 |-> [k |-> IF i > n THEN 8 + i - n ELSE i % 3, v |-> i, sp |-> <<i, 1, i, 1>>]]
\* Errors and tokens: a choice of places for errors.
Script(es) == [items |-> [i \in 1..Len(es) |-> IF es[i] THEN -i ELSE Len(SelectSeq(SubSeq(es, 1, i), LAMBDA e : ~e))],
               eof |-> Len(SelectSeq(es, LAMBDA e : ~e)) + 1,
               toks |-> Toks(Len(SelectSeq(es, LAMBDA e : ~e)))]
NT == Len(sc.toks)

\* The stream as a record; answers are [k, v, R] (v a sequence of tokens).
R0 == [p |-> p, buf |-> buf]
Yes(v, R) == [k |-> "ok", v |-> v, e |-> 0, at |-> 0, R |-> R]
No(n, R) == [k |-> "err", v |-> <<>>, e |-> n, at |-> 0, R |-> R]
Ask(R) == LET i == Item(sc, R.p + 1) T == [R EXCEPT !.p = @ + 1] IN IF i < 0 THEN No(-i, T) ELSE Yes(<<i>>, T)
Take1(R) == IF R.buf # <<>> THEN Yes(<<Head(R.buf)>>, [R EXCEPT !.buf = Tail(@)]) ELSE Ask(R)
Put(R, v) == [R EXCEPT !.buf = v \o @]

\* TokenBuffer::extend_by
RECURSIVE Extend(_, _, _)
Extend(R, n, new) ==
  IF n = 0 THEN Yes(<<>>, IF Variant = "original" THEN [R EXCEPT !.buf = @ \o new] ELSE R)
  ELSE LET a == Ask(R) IN
    IF a.k # "ok" THEN a
    ELSE IF Variant = "original" THEN Extend(a.R, n - 1, new \o a.v)
    ELSE Extend([a.R EXCEPT !.buf = @ \o a.v], n - 1, new)
\* TokenStream::peek_n by default
RECURSIVE TakeN(_, _, _)
TakeN(R, n, v) ==
  IF n = 0 THEN Yes(v, Put(R, v))
  ELSE LET a == Take1(R) IN
    IF a.k # "ok" THEN (IF Variant = "original" THEN a ELSE [a EXCEPT !.R = Put(@, v)])
    ELSE TakeN(a.R, n - 1, v \o a.v)

PeekN(n) ==
  IF kind = "buf"
  THEN LET x == IF Len(buf) < n THEN Extend(R0, n - Len(buf), <<>>) ELSE Yes(<<>>, R0)
       IN IF x.k = "ok" THEN Yes(SubSeq(x.R.buf, 1, n), x.R) ELSE x
  ELSE TakeN(R0, n, <<>>)

RECURSIVE UntilI(_, _, _)
UntilI(R, stop, v) ==
  LET a == Take1(R) IN
  IF a.k # "ok" THEN a
  ELSE IF Accepts(sc, a.v[1], stop) THEN Yes(v, Put(a.R, a.v))
  ELSE UntilI(a.R, stop, v \o a.v)

\* Lookahead: d times peek_next, then dropped.
RECURSIVE LookI(_, _, _, _)
LookI(R, d, v, outs) ==
  IF d = 0 THEN Yes(outs, Put(R, v))
  ELSE LET a == Take1(R) IN
    IF a.k # "ok" THEN LookI(a.R, d - 1, v, Append(outs, -a.e)) ELSE LookI(a.R, d - 1, v \o a.v, outs \o a.v)

OfKind(k) == [k |-> k, lo |-> 0, hi |-> 99, m |-> 1, r |-> 0]
Perform(o) ==
  CASE o.op = "next" -> Take1(R0)
    [] o.op = "unread" -> Yes(<<>>, Put(R0, <<Last(hist)>>))
    [] o.op = "push" -> Yes(<<>>, Put(R0, <<o.i>>))
    [] o.op \in {"peek", "peek2", "peekn"} -> PeekN(o.n)
    [] o.op = "skip" -> LET u == UntilI(R0, o.stop, <<>>) IN [u EXCEPT !.v = <<>>]
    [] o.op = "coll" -> UntilI(R0, o.stop, <<>>)
    [] o.op = "inner" -> Ask(R0)
    [] o.op = "expect" ->
         LET a == Take1(R0) IN
         IF a.k # "ok" \/ a.v[1] = o.i THEN a
         ELSE [k |-> "err", v |-> <<>>, e |-> 0, at |-> a.v[1], R |-> Put(a.R, a.v)]
    [] o.op = "look" -> LookI(R0, Len(o.steps), <<>>, <<>>)

OpSet == {[op |-> "next"], [op |-> "peek", n |-> 1], [op |-> "peek2", n |-> 2], [op |-> "peekn", n |-> 3], [op |-> "inner"],
          [op |-> "expect", i |-> 2], [op |-> "push", i |-> NT],
          [op |-> "look", steps |-> <<0, 0>>, result |-> FALSE, d |-> 2]}
         \cup {[op |-> x, stop |-> <<OfKind(w), OfKind(9)>>, w |-> w] : x \in {"skip", "coll"}, w \in {1, 2}}
         \cup (IF hist = <<>> THEN {} ELSE {[op |-> "unread"]})

Pick(S) == IF SAMPLE = 0 THEN S ELSE RandomSubset(SAMPLE, S)
Init == /\ kind \in Kinds
        /\ \E es \in UNION {Pick([1..n -> BOOLEAN]) : n \in 0..MAXLEN} : sc = Script(es)
        /\ p = 0 /\ buf = <<>> /\ hist = <<>> /\ abs = {TSInit} /\ ops = <<>>
Next == /\ Len(ops) < MAXOPS
        /\ \E o \in OpSet :
             LET x == Perform(o)
                 ret == Ret(x.k, x.v, x.e, x.at, FALSE) IN
             /\ p' = x.R.p /\ buf' = x.R.buf
             /\ hist' = CASE o.op = "next" /\ x.k = "ok" -> Append(hist, x.v[1])
                          [] o.op = "unread" -> Front(hist)
                          [] OTHER -> hist
             /\ abs' = {y.st : y \in {z \in UNION {DoT(sc, <<>>, a, o) : a \in abs} : z.ret = ret /\ z.st.p = x.R.p}}
             /\ ops' = Append(ops, o)
        /\ UNCHANGED <<kind, sc>>
Spec == Init /\ [][Next]_vars

Refines == abs # {}
\* The coupling: the buffered tokens are the ones to come.
Coupled == \A a \in abs : a.q = buf /\ a.p = p
Emit == Len(ops) < MAXOPS \/ PrintT("SCN " \o ToJson([kind |-> kind, items |-> sc.items, ops |-> ops]))
============================================================================
