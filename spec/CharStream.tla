---------------------------- MODULE CharStream ----------------------------
(* The abstract character stream: what a user of laps' InputStream sees.   *)
(* The text is a fixed sequence of characters followed by the end of input *)
(* or by undecodable bytes. How the text arrives is not part of the state. *)
EXTENDS Integers, Sequences, SequencesExt

\* txt = [cs |-> Seq(char; -1 is a temporary end of input), bad |-> BOOLEAN]
\* st  = [p |-> characters taken from the text, pushed |-> stack of unread
\*        characters, loc |-> <<line, column>>, en |-> errors counted,
\*        hist |-> reads that can be unread, [c |-> Seq, loc |-> Location]]
CSInit == [p |-> 0, pushed |-> <<>>, loc |-> <<1, 0>>, en |-> 0, hist |-> <<>>]

Adv(loc, c) == IF c = 10 THEN <<loc[1] + 1, 0>> ELSE <<loc[1], loc[2] + 1>>
At(loc) == loc \o loc    \* a span of one location: <<line, column, line, column>>

\* What the next read finds: a character (as 1-tuple), the end (<<>>), or Bad.
Bad == <<-2>>
Coming(txt, st) ==
  IF st.pushed # <<>> THEN <<Last(st.pushed)>>
  ELSE IF st.p < Len(txt.cs) THEN (IF txt.cs[st.p + 1] = -1 THEN <<>> ELSE <<txt.cs[st.p + 1]>>)
  ELSE IF txt.bad THEN Bad
  ELSE <<>>

\* The state behind that read (for characters and the end of input).
Take(txt, st) ==
  IF st.pushed # <<>> THEN [st EXCEPT !.pushed = Front(@), !.loc = Adv(@, Last(st.pushed))]
  ELSE IF st.p < Len(txt.cs) THEN
    IF txt.cs[st.p + 1] = -1 THEN [st EXCEPT !.p = @ + 1]
    ELSE [st EXCEPT !.p = @ + 1, !.loc = Adv(@, txt.cs[st.p + 1])]
  ELSE st

\* All the characters to come, and the state after taking n of them.
Upcoming(txt, st) == Reverse(st.pushed) \o SubSeq(txt.cs, st.p + 1, Len(txt.cs))
TakeN(txt, st, n) ==
  LET np == Len(st.pushed) IN
  [st EXCEPT !.pushed = IF n >= np THEN <<>> ELSE SubSeq(@, 1, np - n),
             !.p = IF n >= np THEN @ + (n - np) ELSE @,
             !.loc = FoldLeft(Adv, @, SubSeq(Upcoming(txt, st), 1, n))]

\* The number of characters in front of the nth one in stop. A predicate may
\* count: it is asked about each character once, in order.
RunTo(up, stop, nth) ==
  LET hits == SelectSeq([i \in 1..Len(up) |-> i], LAMBDA i : up[i] \in stop)
  IN IF Len(hits) < nth THEN Len(up) ELSE hits[nth] - 1
RunLength(up, stop) == RunTo(up, stop, 1)
Nth(o) == IF "nth" \in DOMAIN o THEN o.nth ELSE 1

Ok(c, s) == [k |-> "ok", c |-> c, s |-> s]
Fatal == [k |-> "fatal", c |-> <<>>, s |-> <<>>]
Out(st, r) == {[st |-> st, ret |-> r]}
Failed(st) == Out([st EXCEPT !.en = @ + 1], Fatal)

\* The outcomes of one operation. io tells whether the source failed in it.
Do(txt, st, o, io) ==
  CASE o.op \in {"next", "nextc", "nexts", "nspan"} ->
         IF io THEN Failed(st)
         ELSE LET f == Coming(txt, st) IN
           IF f = Bad THEN Failed(st)
           ELSE LET t == Take(txt, st) IN
             (CASE o.op = "next" -> Out([t EXCEPT !.hist = Append(@, [c |-> f, loc |-> st.loc])], Ok(f, st.loc))
               [] o.op = "nextc" -> Out(t, Ok(f, <<>>))
               [] o.op = "nexts" -> Out(t, Ok(f, At(t.loc)))
               [] o.op = "nspan" -> Out(t, Ok(<<>>, At(t.loc))))
    [] o.op \in {"peek", "peeks"} ->
         IF io THEN Failed(st)
         ELSE LET f == Coming(txt, st) IN
           IF f = Bad THEN Failed(st)
           ELSE Out(st, Ok(f, IF o.op = "peek" THEN <<>> ELSE At(Take(txt, st).loc)))
    [] o.op = "unread" ->
         IF st.hist = <<>> THEN Out(st, Ok(<<>>, <<>>))
         ELSE LET h == Last(st.hist) IN
           Out([st EXCEPT !.hist = Front(@), !.pushed = @ \o h.c, !.loc = h.loc], Ok(<<>>, <<>>))
    [] o.op = "push" -> Out([st EXCEPT !.pushed = Append(@, o.c), !.loc = <<o.line, o.col>>], Ok(<<>>, <<>>))
    [] o.op = "set" -> Out([st EXCEPT !.loc = <<o.line, o.col>>], Ok(<<>>, <<>>))
    [] o.op \in {"skip", "coll", "colls"} ->
         LET up == Upcoming(txt, st)
             n == RunTo(up, ToSet(o.stop), Nth(o))
             t == TakeN(txt, st, n)
             cs == SubSeq(up, 1, n)
         IN IF io THEN UNION {Failed(TakeN(txt, st, m)) : m \in 0..n}
            ELSE IF n = Len(up) /\ txt.bad THEN Failed(t)
            ELSE (CASE o.op = "skip" -> Out(t, Ok(<<>>, <<>>))
                   [] o.op = "coll" -> Out(t, Ok(cs, <<>>))
                   [] o.op = "colls" ->
                        LET first == TakeN(txt, st, IF Len(up) = 0 THEN 0 ELSE 1)
                        IN Out(t, Ok(cs, first.loc \o IF n = 0 THEN first.loc ELSE t.loc)))
============================================================================
