---------------------------- MODULE ReaderImpl ----------------------------
(* How the readers work: a source that delivers its bytes in chunks, a     *)
(* byte buffer of BUF bytes and a stack of decoded characters. Checked to  *)
(* refine CharStream for every script up to MAXLEN items and every history.*)
EXTENDS CharStream, Utf8, TLC, Json, Randomization

CONSTANTS BUF, MAXLEN, MAXOPS, Items, Kinds, Stops, Variant,
          SAMPLE   \* 0: all scripts; otherwise that many random ones of each length

\* Script items: 0..255 bytes, 256 an I/O error, 257 the end of one read.
VARIABLES kind, script,   \* what is read
          src,            \* the rest of the script
          bbuf, cbuf, loc, en,   \* the reader
          hist,           \* reads that can be unread
          abs,            \* the set of states of CharStream this may be
          io, last, ops   \* of the last operation; the operations so far
vars == <<kind, script, src, bbuf, cbuf, loc, en, hist, abs, io, last, ops>>
View == <<kind, script, src, bbuf, cbuf, loc, en, hist, abs, Len(ops)>>

Text == IF kind = "byte" THEN [cs |-> SelectSeq(script, LAMBDA b : b < 256), bad |-> FALSE]
        ELSE Decode(SelectSeq(script, LAMBDA b : b < 256))

\* One call of Read::read with room bytes: [b |-> bytes, e |-> failed, r |-> rest].
RECURSIVE Skip257(_)
Skip257(s) == IF s # <<>> /\ Head(s) = 257 THEN Skip257(Tail(s)) ELSE s
Read(s0, room) ==
  LET s == Skip257(s0)
      n == RunLength(s, {256, 257})
      k == IF n < room THEN n ELSE room
  IN IF s = <<>> THEN [b |-> <<>>, e |-> FALSE, r |-> s]
     ELSE IF Head(s) = 256 THEN [b |-> <<>>, e |-> TRUE, r |-> Tail(s)]
     ELSE [b |-> SubSeq(s, 1, k), e |-> FALSE, r |-> SubSeq(s, k + 1, Len(s))]

\* Fetching from the source when the stack is empty. R is the reader as a record.
Rec == [src |-> src, bbuf |-> bbuf, cbuf |-> cbuf, loc |-> loc, en |-> en]
Incomplete(bs) == LET d == Decoder(bs) IN d.cs = <<>> /\ ~d.bad /\ d.need > 0
Err(R) == [R |-> [R EXCEPT !.en = @ + 1], k |-> "fatal", c |-> <<>>, loc |-> R.loc]
Got(R, c) == [R |-> [R EXCEPT !.loc = Adv(@, c)], k |-> "ok", c |-> <<c>>, loc |-> R.loc]
Nothing(R) == [R |-> R, k |-> "ok", c |-> <<>>, loc |-> R.loc]

RECURSIVE Fill(_)
Fill(R) ==
  LET d == Read(R.src, BUF - Len(R.bbuf))
      R1 == [R EXCEPT !.src = d.r, !.bbuf = @ \o d.b]
  IN IF d.e THEN [R |-> R1, e |-> TRUE]
     ELSE IF d.b # <<>> /\ Incomplete(R1.bbuf) THEN Fill(R1)
     ELSE [R |-> R1, e |-> FALSE]
\* As it was before the repair: one read, and bytes dropped when it fails.
FillOld(R) ==
  LET d == Read(R.src, BUF - Len(R.bbuf))
  IN IF d.e THEN [R |-> [R EXCEPT !.src = d.r], e |-> TRUE]
     ELSE [R |-> [R EXCEPT !.src = d.r, !.bbuf = @ \o d.b], e |-> FALSE]

Prefix(bs) ==  \* the decoded prefix and the bytes behind it
  LET d == Decoder(bs)
      used == FoldLeft(LAMBDA n, c : n + Len(Encode(c)), 0, d.cs)
  IN [cs |-> d.cs, rest |-> SubSeq(bs, used + 1, Len(bs))]

FetchChar(R) ==
  LET f == IF Variant = "original" THEN FillOld(R) ELSE Fill(R)
  IN IF f.e THEN Err(f.R)
     ELSE IF f.R.bbuf = <<>> THEN Nothing(f.R)
     ELSE LET p == Prefix(f.R.bbuf) IN
       IF p.cs = <<>> THEN Err(IF Variant = "original" THEN [f.R EXCEPT !.bbuf = <<>>] ELSE f.R)
       ELSE Got([f.R EXCEPT !.bbuf = p.rest, !.cbuf = Reverse(Tail(p.cs))], Head(p.cs))
FetchByte(R) ==
  LET d == Read(R.src, BUF)
      R1 == [R EXCEPT !.src = d.r]
  IN IF d.e THEN Err(R1)
     ELSE IF d.b = <<>> THEN Nothing(R1)
     ELSE Got([R1 EXCEPT !.cbuf = Reverse(Tail(d.b))], Head(d.b))

NextLoc(R) ==
  IF R.cbuf # <<>> THEN Got([R EXCEPT !.cbuf = Front(@)], Last(R.cbuf))
  ELSE IF kind = "byte" THEN FetchByte(R) ELSE FetchChar(R)
Unread(R, c, lc) == [R EXCEPT !.cbuf = @ \o c, !.loc = lc]
Peek(R) ==
  IF R.cbuf # <<>> THEN [R |-> R, k |-> "ok", c |-> <<Last(R.cbuf)>>, loc |-> Adv(R.loc, Last(R.cbuf))]
  ELSE LET n == NextLoc(R) IN
    IF n.k # "ok" THEN n ELSE [n EXCEPT !.R = Unread(n.R, n.c, n.loc), !.loc = n.R.loc]

\* The default methods of the trait, as loops over peek and next.
RECURSIVE Loop(_, _, _, _)
Loop(R, stop, v, end) ==
  LET p == Peek(R) IN
  IF p.k # "ok" THEN [R |-> p.R, k |-> "fatal", v |-> <<>>, end |-> end]
  ELSE IF p.c = <<>> \/ p.c[1] \in stop THEN [R |-> p.R, k |-> "ok", v |-> v, end |-> end]
  ELSE LET n == NextLoc(p.R) IN
    IF n.k # "ok" THEN [R |-> n.R, k |-> "fatal", v |-> <<>>, end |-> end]
    ELSE Loop(n.R, stop, Append(v, n.c[1]), n.R.loc)
CollectSpan(R, stop) ==
  LET p == Peek(R) IN
  IF p.k # "ok" THEN [R |-> p.R, ret |-> Fatal]
  ELSE IF p.c = <<>> \/ p.c[1] \in stop THEN [R |-> p.R, ret |-> Ok(<<>>, At(p.loc))]
  ELSE LET lp == Loop(p.R, stop, <<>>, p.loc) IN
    [R |-> lp.R, ret |-> IF lp.k = "ok" THEN Ok(lp.v, p.loc \o lp.end) ELSE Fatal]

Ans(n, s) == [R |-> n.R, ret |-> IF n.k = "ok" THEN Ok(n.c, s) ELSE Fatal]

Perform(o) ==
  CASE o.op = "next" -> LET n == NextLoc(Rec) IN Ans(n, n.loc)
    [] o.op = "peeks" -> LET p == Peek(Rec) IN Ans(p, At(p.loc))
    [] o.op = "unread" -> [R |-> Unread(Rec, Last(hist).c, Last(hist).loc), ret |-> Ok(<<>>, <<>>)]
    [] o.op = "skip" -> LET lp == Loop(Rec, ToSet(o.stop), <<>>, loc)
                        IN [R |-> lp.R, ret |-> IF lp.k = "ok" THEN Ok(<<>>, <<>>) ELSE Fatal]
    [] o.op = "colls" -> CollectSpan(Rec, ToSet(o.stop))
    [] o.op = "set" -> [R |-> [Rec EXCEPT !.loc = <<o.line, o.col>>], ret |-> Ok(<<>>, <<>>)]

OpSet == {[op |-> "next"], [op |-> "peeks"], [op |-> "set", line |-> 7, col |-> 3]}
         \cup (IF hist = <<>> THEN {} ELSE {[op |-> "unread"]})
         \cup [op : {"skip", "colls"}, stop : {SetToSeq(s) : s \in Stops}]

Errors(s) == Len(SelectSeq(s, LAMBDA b : b = 256))

Pick(S) == IF SAMPLE = 0 THEN S ELSE RandomSubset(SAMPLE, S)

Init == /\ kind \in Kinds
        /\ script \in UNION {Pick([1..n -> Items]) : n \in 0..MAXLEN}
        /\ src = script /\ bbuf = <<>> /\ cbuf = <<>> /\ loc = <<1, 0>> /\ en = 0
        /\ hist = <<>> /\ abs = {CSInit} /\ io = FALSE /\ last = Fatal /\ ops = <<>>
Next == /\ Len(ops) < MAXOPS
        /\ \E o \in OpSet :
             LET x == Perform(o) IN
             /\ src' = x.R.src /\ bbuf' = x.R.bbuf /\ cbuf' = x.R.cbuf
             /\ loc' = x.R.loc /\ en' = x.R.en
             /\ hist' = CASE o.op = "next" /\ x.ret.k = "ok" -> <<[c |-> x.ret.c, loc |-> x.ret.s]>>
                          [] o.op \in {"unread", "next", "skip", "colls"} -> <<>>
                          [] OTHER -> hist
             /\ io' = (Errors(src) > Errors(x.R.src))
             /\ last' = x.ret
             /\ abs' = {y.st : y \in {z \in UNION {Do(Text, [a EXCEPT !.hist = hist], o, io') : a \in abs} :
                                        z.ret = x.ret /\ z.st.loc = x.R.loc /\ z.st.en = x.R.en}}
             /\ ops' = Append(ops, o)
        /\ UNCHANGED <<kind, script>>
Spec == Init /\ [][Next]_vars

Refines == abs # {}
\* The coupling: buffered characters and undecoded bytes are the coming text.
Coupled == \A a \in abs :
  LET up == Upcoming(Text, a)
      rest == bbuf \o SelectSeq(src, LAMBDA b : b < 256)
  IN up = Reverse(cbuf) \o (IF kind = "byte" THEN rest ELSE Decode(rest).cs)
\* Behaviours for replay, printed in simulation mode.
Emit == Len(ops) < MAXOPS \/ PrintT("SCN " \o ToJson([kind |-> kind, src |-> script, ops |-> ops]))
============================================================================
