----------------------------- MODULE LexerImpl -----------------------------
(* The derived lexer's loop, one input operation at a time, against Lexer;  *)
(* and Lexer itself against what its words say: the longest viable prefix,  *)
(* the first rule, texts that tile the input.                               *)
EXTENDS Lexer, FiniteSets, TLC

CONSTANTS TRIPLES,        \* lexers of three rules too
          WORDLEN, WIDTH  \* WIDTH: entries of the table are kept modulo this (0: wide enough)

\* ------------------------------------------------ small lexers over 1..3
N(t, r, k, mn, mx) == [t |-> t, r |-> r, k |-> k, min |-> mn, max |-> mx]
A(c) == N("cls", << <<c, c>> >>, <<>>, 0, 0)
\* nodes: 1 a, 2 b, 3 c, 4 [ab], 5 aa, 6 a+, 7 ab, 8 (ab)+, 9 abc, 10 [ab]+, 11 b*c, 12 b*, 13 aab, 14 c+, 15 aaaa
Nodes == << A(1), A(2), A(3), N("cls", << <<1, 2>> >>, <<>>, 0, 0), N("cat", <<>>, <<1, 1>>, 0, 0), N("rep", <<>>, <<1>>, 1, -1),
            N("cat", <<>>, <<1, 2>>, 0, 0), N("rep", <<>>, <<7>>, 1, -1), N("cat", <<>>, <<1, 2, 3>>, 0, 0), N("rep", <<>>, <<4>>, 1, -1),
            N("cat", <<>>, <<12, 3>>, 0, 0), N("rep", <<>>, <<2>>, 0, -1), N("cat", <<>>, <<1, 1, 2>>, 0, 0), N("rep", <<>>, <<3>>, 1, -1), N("cat", <<>>, <<1, 1, 1, 1>>, 0, 0) >>
\* children come first: 12 in front of 11
Order == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 11, 13, 14, 15>>
Place(n) == CHOOSE i \in 1..Len(Order) : Order[i] = n
Sorted == [i \in 1..Len(Order) |-> [Nodes[Order[i]] EXCEPT !.k = [j \in 1..Len(@) |-> Place(@[j])]]]
TheTree == Tree(Sorted)

Roots == IF ~TRIPLES THEN {1, 5, 8, 10, 11, 15} ELSE {1, 2, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15}
Kinds == {"regex", "skip"}
Sets == {<<x>> : x \in Roots} \cup {<<x, y>> : x \in Roots, y \in Roots} \cup {<<x, y, z>> : x \in (IF TRIPLES THEN {1, 7, 10, 14} ELSE {10}), y \in {2, 9, 6}, z \in (IF TRIPLES THEN {5, 8, 11, 3} ELSE {8})}
LexOf(roots, skip, eof) ==
  [T |-> TheTree, rules |-> [i \in 1..Len(roots) |-> [root |-> Place(roots[i]), tag |-> i]],
   vars |-> [i \in 1..Len(roots) |-> [kind |-> IF i = skip THEN "skip" ELSE "regex", conv |-> IF i = 2 THEN "even" ELSE "text", called |-> "x"]]
            \o (IF eof THEN << [kind |-> "eof", conv |-> "unit", called |-> "e"] >> ELSE <<>>)]
Words == UNION {[1..n -> 1..3] : n \in 0..WORDLEN}

VARIABLES lx, txt,        \* the lexer, and the text
          in,             \* the input stream (CharStream's state)
          pc, v, last, buf, span, eof,   \* the loop's variables
          start,          \* where the token began (for the comparison)
          out, outs       \* what the call gave, and what Lexer says
vars == <<lx, txt, in, pc, v, last, buf, span, eof, start, out, outs>>
T0 == [cs |-> txt, bad |-> FALSE]
LX == LexOf(lx.roots, lx.skip, lx.eof)

Init == /\ lx \in [roots : Sets, skip : {0, 1}, eof : BOOLEAN]
        /\ txt \in Words
        /\ in = CSInit /\ pc = "call" /\ v = <<>> /\ last = <<>> /\ buf = <<>> /\ span = <<>> /\ eof = FALSE
        /\ start = CSInit /\ out = <<>> /\ outs = 0

Go(p) == pc' = p /\ UNCHANGED <<lx, txt>>
Call == /\ pc = "call" /\ outs < Len(txt) + 2
        /\ start' = in /\ outs' = outs + 1 /\ out' = <<>>
        /\ UNCHANGED <<in, v, last, buf, span, eof>> /\ Go("begin")
\* next_token_impl: peek_with_span
Begin == /\ pc = "begin"
         /\ v' = VInit(LX.T, LX.rules) /\ last' = v' /\ buf' = <<>> /\ eof' = FALSE
         /\ span' = LET o == CHOOSE o \in Do(T0, in, [op |-> "peeks"], FALSE) : TRUE IN o.ret.s
         /\ UNCHANGED <<in, start, out, outs>> /\ Go("loop")
Loop == /\ pc = "loop"
        /\ LET o == CHOOSE o \in Do(T0, in, [op |-> "next"], FALSE) : TRUE
               c == o.ret.c IN
           /\ last' = v
           /\ IF c = <<>> THEN /\ in' = o.st /\ eof' = TRUE /\ Go("end") /\ UNCHANGED <<v, buf, span>>
              ELSE LET w == VStep(LX.T, v, c[1])
                       \* a table whose entries are too narrow does not know the rejection
                       refuses == ~VLive(w) /\ WIDTH = 0 IN
                   IF refuses THEN /\ in' = [o.st EXCEPT !.pushed = @ \o c, !.loc = o.ret.s, !.hist = Front(@)]
                                   /\ Go("end") /\ UNCHANGED <<v, buf, span, eof>>
                   ELSE /\ in' = [o.st EXCEPT !.hist = <<>>] /\ v' = (IF VLive(w) THEN w ELSE VInit(LX.T, LX.rules))
                        /\ buf' = Append(buf, c[1])
                        /\ span' = SubSeq(span, 1, 2) \o o.st.loc
                        /\ UNCHANGED eof /\ Go("loop")
        /\ UNCHANGED <<start, out, outs>>
Give(x) == /\ out' = <<x>> /\ in' = x.st /\ Go("call") /\ UNCHANGED <<v, last, buf, span, eof, start, outs>>
St == [in EXCEPT !.hist = <<>>]
End == /\ pc = "end"
       /\ LET tag == VTag(LX.T, LX.rules, last) IN
          IF tag # <<>> THEN
            (IF LX.vars[tag[1]].kind = "skip" THEN /\ Go("begin") /\ UNCHANGED <<in, v, last, buf, span, eof, start, out, outs>>
             ELSE LET c == Conv(LX.vars[tag[1]].conv, buf) IN
                  IF c = <<>> THEN Give(ErrOut(St, "invalid x", SubSeq(span, 1, 2)))
                  ELSE Give(TokOut(St, tag[1], c[1], span)))
          ELSE IF eof /\ buf = <<>> THEN
            (IF EofVar(LX) > 0 THEN Give(TokOut(St, EofVar(LX), <<>>, span))
             ELSE Give(ErrOut(St, "unexpected end-of-file", SubSeq(span, 1, 2))))
          ELSE IF eof THEN Give(ErrOut(St, "unexpected end-of-file", SubSeq(span, 1, 2)))
          ELSE Give(ErrOut(St, "unrecognized token", SubSeq(span, 1, 2)))
Next == Call \/ Begin \/ Loop \/ End
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
\* Every call does what Lexer says it does.
Plain(st) == [rest |-> Upcoming(T0, st), loc |-> st.loc, en |-> st.en]
Refines == out # <<>> => \E x \in Token(LX, T0, [start EXCEPT !.hist = <<>>]) :
             [out[1] EXCEPT !.st = Plain(out[1].st)] = [x EXCEPT !.st = Plain(x.st)]
\* The text between two calls, and what the definitions say of it.
Before == Upcoming(T0, start)
Taken == SubSeq(Before, 1, Len(Before) - Len(Upcoming(T0, in)))
Viable(u) == \E w \in UNION {[1..n -> 1..3] : n \in 0..3} : VTag(LX.T, LX.rules, VRun(LX.T, VInit(LX.T, LX.rules), u \o w)) # <<>>
Matching(u) == {i \in 1..Len(LX.rules) : VTag(LX.T, <<LX.rules[i]>>, VRun(LX.T, VInit(LX.T, <<LX.rules[i]>>), u)) # <<>>}
NoSkip == lx.skip = 0
Longest == out # <<>> /\ NoSkip /\ outs <= 2 =>
  /\ (Taken # <<>> => Viable(Taken))
  /\ (Len(Taken) < Len(Before) => ~Viable(SubSeq(Before, 1, Len(Taken) + 1)))
FirstRule == out # <<>> /\ NoSkip /\ out[1].k = "tok" /\ Taken # <<>> =>
  /\ out[1].var \in Matching(Taken)
  /\ \A i \in Matching(Taken) : out[1].var <= i
\* The texts tile the input: what was taken and what is left is the input, in its place.
Tiles == pc = "call" => /\ \E n \in 0..Len(txt) : Upcoming(T0, in) = SubSeq(txt, n + 1, Len(txt))
                        /\ in.loc = FoldLeft(Adv, <<1, 0>>, SubSeq(txt, 1, Len(txt) - Len(Upcoming(T0, in))))
SpanFits == out # <<>> /\ NoSkip /\ out[1].k = "tok" /\ Taken # <<>> =>
  out[1].sp = FoldLeft(Adv, start.loc, SubSeq(Taken, 1, 1)) \o FoldLeft(Adv, start.loc, Taken)
============================================================================
