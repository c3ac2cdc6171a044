---------------------------- MODULE TokenStream ----------------------------
(* The abstract token stream: what a user of laps' TokenStream sees.        *)
(* A tokenizer answers with the items of a script, one per call; the stream *)
(* holds the tokens that were fetched or unread and not delivered yet.      *)
EXTENDS Integers, Sequences, SequencesExt

\* A script: [items |-> Seq(index of a token > 0, or -n for the error n),
\*            eof |-> index of the token behind the end, or -n,
\*            toks |-> Seq([k |-> kind, v |-> value, sp |-> span])]
\* S = [q |-> tokens in front, first to deliver first, p |-> calls of the
\*      tokenizer so far]
\* st = S plus [hist |-> tokens delivered by next that can be unread]
Item(sc, n) == IF n <= Len(sc.items) THEN sc.items[n] ELSE sc.eof

\* An answer: k = "ok" with a value, or "err" with the error; S is the stream
\* behind it. A mismatch says where (index of the token) and what was expected.
OkA(v, S) == [k |-> "ok", v |-> v, S |-> S, e |-> 0, at |-> 0]
FaultA(n, S) == [k |-> "err", v |-> <<>>, S |-> S, e |-> n, at |-> 0]
ExpectedA(i, S) == [k |-> "err", v |-> <<>>, S |-> S, e |-> 0, at |-> i]

Next1(sc, S) ==
  IF S.q # <<>> THEN OkA(Head(S.q), [S EXCEPT !.q = Tail(@)])
  ELSE LET i == Item(sc, S.p + 1) IN
    IF i < 0 THEN FaultA(-i, [S EXCEPT !.p = @ + 1])
    ELSE OkA(i, [S EXCEPT !.p = @ + 1])
Unread1(S, i) == [S EXCEPT !.q = <<i>> \o @]

\* The next n tokens become known: they stay in the stream, also if an error
\* comes in between.
RECURSIVE Fetch(_, _, _)
Fetch(sc, S, n) ==
  IF Len(S.q) >= n THEN OkA(SubSeq(S.q, 1, n), S)
  ELSE LET i == Item(sc, S.p + 1)
           T == [S EXCEPT !.p = @ + 1] IN
    IF i < 0 THEN FaultA(-i, T) ELSE Fetch(sc, [T EXCEPT !.q = Append(@, i)], n)

\* Does a token match a pattern: a set of alternatives [k, lo, hi, m, r]
\* (kind, range of values, and values that are r modulo m)?
Alt(t, a) == t.k = a.k /\ a.lo <= t.v /\ t.v <= a.hi /\ t.v % a.m = a.r
Accepts(sc, i, pats) == \E j \in 1..Len(pats) : Alt(sc.toks[i], pats[j])

\* Reading until the nth token that matches. A predicate may count: it is asked
\* about each token once, in order.
NthT(o) == IF "nth" \in DOMAIN o THEN o.nth ELSE 1
RECURSIVE Until(_, _, _, _, _)
Until(sc, S, stop, nth, v) ==
  LET f == Fetch(sc, S, 1) IN
  IF f.k = "err" THEN f
  ELSE LET hit == Accepts(sc, f.v[1], stop) IN
    IF hit /\ nth = 1 THEN OkA(v, f.S)
    ELSE Until(sc, Next1(sc, f.S).S, stop, IF hit THEN nth - 1 ELSE nth, Append(v, f.v[1]))

SameKind(a, b) == a.k = b.k /\ a.v = b.v

\* A lookahead: peek_next (0) and checks of token types (node j: GR[j]).
\* L = [d |-> tokens looked at, S |-> the stream behind them, b |-> the verdict,
\*      outs |-> what the steps gave]
\* Behind a mismatch a check may or may not fetch the token it looks at.
RECURSIVE Look(_, _, _, _)
Rewind(L) == [L.S EXCEPT !.q = L.d \o @]
Look(sc, pats, steps, L) ==
  IF steps = <<>> THEN {[k |-> "ok", v |-> L.outs, b |-> L.b, S |-> Rewind(L), e |-> 0]}
  ELSE LET s == Head(steps)
           f == Fetch(sc, L.S, 1)
           n == Next1(sc, f.S)
       IN
    IF f.k = "err" THEN
      IF s = 0   \* the lookahead goes on behind a failed peek_next
      THEN Look(sc, pats, Tail(steps), [L EXCEPT !.S = f.S, !.outs = Append(@, -f.e)])
      ELSE {[k |-> "err", v |-> L.outs, b |-> FALSE, S |-> Rewind([L EXCEPT !.S = f.S]), e |-> f.e]}
           \cup (IF L.b THEN {} ELSE Look(sc, pats, Tail(steps), L))
    ELSE IF s = 0
      THEN Look(sc, pats, Tail(steps), [L EXCEPT !.d = Append(@, n.v), !.S = n.S, !.outs = Append(@, n.v)])
      ELSE Look(sc, pats, Tail(steps), [L EXCEPT !.d = Append(@, n.v), !.S = n.S,
                                         !.b = @ /\ Accepts(sc, n.v, pats[s])])
           \cup (IF L.b THEN {} ELSE Look(sc, pats, Tail(steps), L))

\* What an operation may answer, and the state behind it.
\* pats: the patterns of the token types that lookahead may use.
TSInit == [q |-> <<>>, p |-> 0, hist |-> <<>>]
Str(st) == [q |-> st.q, p |-> st.p]
Ret(k, v, e, at, b) == [k |-> k, v |-> v, e |-> e, at |-> at, b |-> b]
On(st, S) == [q |-> S.q, p |-> S.p, hist |-> st.hist]
Ans(st, a, v) == {[st |-> On(st, a.S), ret |-> Ret(a.k, v, a.e, a.at, FALSE)]}

DoT(sc, pats, st, o) ==
  LET S == Str(st) IN
  CASE o.op = "next" ->
         LET n == Next1(sc, S) IN
         IF n.k = "err" THEN Ans(st, n, <<>>)
         ELSE {[st |-> [On(st, n.S) EXCEPT !.hist = Append(@, n.v)], ret |-> Ret("ok", <<n.v>>, 0, 0, FALSE)]}
    [] o.op \in {"peek", "peek2", "peekn"} ->
         LET f == Fetch(sc, S, o.n) IN Ans(st, f, f.v)
    [] o.op = "unread" ->
         IF st.hist = <<>> THEN Ans(st, OkA(<<>>, S), <<>>)
         ELSE {[st |-> [On(st, Unread1(S, Last(st.hist))) EXCEPT !.hist = Front(@)], ret |-> Ret("ok", <<>>, 0, 0, FALSE)]}
    [] o.op = "push" -> Ans(st, OkA(<<>>, Unread1(S, o.i)), <<>>)
    [] o.op = "skip" -> LET u == Until(sc, S, o.stop, NthT(o), <<>>) IN Ans(st, u, <<>>)
    [] o.op = "coll" -> LET u == Until(sc, S, o.stop, NthT(o), <<>>) IN Ans(st, u, IF u.k = "ok" THEN u.v ELSE <<>>)
    [] o.op = "expect" ->
         LET f == Fetch(sc, S, 1) IN
         IF f.k = "err" THEN Ans(st, f, <<>>)
         ELSE IF SameKind(sc.toks[f.v[1]], sc.toks[o.i])
              THEN Ans(st, Next1(sc, f.S), f.v)
              ELSE Ans(st, ExpectedA(f.v[1], f.S), <<>>)
    [] o.op = "inner" ->   \* the inner tokenizer is asked directly
         LET i == Item(sc, S.p + 1)
             T == [S EXCEPT !.p = @ + 1] IN
         IF i < 0 THEN Ans(st, FaultA(-i, T), <<>>) ELSE Ans(st, OkA(<<i>>, T), <<i>>)
    [] o.op = "look" ->
         {[st |-> On(st, x.S), ret |-> Ret(x.k, IF x.k = "ok" \/ x.v # <<>> THEN x.v ELSE <<>>, x.e, 0, o.result /\ x.k = "ok" /\ x.b)] :
            x \in Look(sc, pats, o.steps, [d |-> <<>>, S |-> S, b |-> TRUE, outs |-> <<>>])}
============================================================================
