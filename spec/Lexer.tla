------------------------------- MODULE Lexer -------------------------------
(* What a derived lexer does with the abstract character stream: the next   *)
(* token's text is the longest viable prefix of what is to come, its kind   *)
(* that of the first declared rule that matches all of it.                  *)
EXTENDS Regex, CharStream, Utf8, TLC

Smallest(a, b) == IF a < b THEN a ELSE b

\* LX = [T |-> Tree(nodes), rules |-> Seq([root, tag |-> number of the variant]),
\*       vars |-> Seq([kind |-> "regex" | "skip" | "eof" | "none", conv, called])]

\* A token's text is the longest viable prefix of what is to come; if it is one
\* to be skipped, the next token begins behind it. Reading character by character:
\* the current token begins behind b characters, n have been read, v are the
\* residuals behind them; on until a token ends that is not skipped.
Skips(LX, v) == LET t == VTag(LX.T, LX.rules, v) IN t # <<>> /\ LX.vars[t[1]].kind = "skip"
ScanStep(LX, v0, x, c) ==
  IF ~x.on THEN x
  ELSE LET w == VStep(LX.T, x.v, c) IN
    IF VLive(w) THEN [x EXCEPT !.n = @ + 1, !.v = w]
    ELSE IF x.n > x.b /\ Skips(LX, x.v) THEN
      LET u == VStep(LX.T, v0, c) IN
      IF VLive(u) THEN [b |-> x.n, n |-> x.n + 1, v |-> u, on |-> TRUE]
      ELSE [b |-> x.n, n |-> x.n, v |-> v0, on |-> FALSE]
    ELSE [x EXCEPT !.on = FALSE]
\* In portions that grow, for TLC to evaluate short and long runs fast.
RECURSIVE ScanOn(_, _, _, _, _)
ScanOn(LX, v0, up, x, k) ==
  LET part == SubSeq(up, x.n + 1, Smallest(x.n + k, Len(up)))
      y == FoldLeft(LAMBDA z, c : ScanStep(LX, v0, z, c), x, part)
  IN IF y.on /\ y.n < Len(up) THEN ScanOn(LX, v0, up, y, 2 * k) ELSE y
Scan(LX, txt, up) ==
  LET v0 == TLCEval(VInit(LX.T, LX.rules))
      x == ScanOn(LX, v0, up, [b |-> 0, n |-> 0, v |-> v0, on |-> TRUE], 8)
  IN IF x.n = Len(up) /\ ~txt.bad /\ x.n > x.b /\ Skips(LX, x.v) THEN [x EXCEPT !.b = x.n, !.v = v0] ELSE x

\* ------------------------------------------------------------ conversions
\* <<value>> or <<>> if the conversion fails; texts are sequences of symbols.
Digits(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] \in 48..57
DecVal(t) == FoldLeft(LAMBDA a, c : IF a > 1000000 THEN a ELSE a * 10 + (c - 48), 0, t)
Some(v) == <<v>>
Nothing == <<>>
Unsigned(t, max) ==
  LET d == IF t # <<>> /\ t[1] = 43 THEN Tail(t) ELSE t IN
  IF Digits(d) /\ DecVal(d) <= max THEN Some(<<DecVal(d)>>) ELSE Nothing
Signed(t, max) ==
  IF t # <<>> /\ t[1] = 45
  THEN (IF Digits(Tail(t)) /\ DecVal(Tail(t)) <= max + 1 THEN Some(<<-DecVal(Tail(t))>>) ELSE Nothing)
  ELSE Unsigned(t, max)
Conv(c, t) ==
  CASE c = "unit" -> Some(<<>>)
    [] c = "text" -> Some(t)                               \* the text itself
    [] c = "rev" -> Some(Reverse(t))
    [] c = "even" -> IF Len(t) % 2 = 0 THEN Some(t) ELSE Nothing
    [] c = "never" -> Nothing
    [] c = "first" -> IF t = <<>> THEN Nothing ELSE Some(<<t[1]>>)
    [] c = "char" -> IF Len(t) = 1 THEN Some(t) ELSE Nothing
    [] c = "bool" -> IF t = <<116, 114, 117, 101>> THEN Some(<<1>>)
                     ELSE IF t = <<102, 97, 108, 115, 101>> THEN Some(<<0>>) ELSE Nothing
    [] c = "u8" -> Unsigned(t, 255)
    [] c = "i16" -> Signed(t, 32767)
    [] c = "utf8" -> LET d == Decode(t) IN IF d.bad THEN Nothing ELSE Some(d.cs)

\* ------------------------------------------------------------ the next token
TokOut(st, var, val, sp) == [st |-> st, k |-> "tok", var |-> var, val |-> val, sp |-> sp, msg |-> "", loc |-> <<>>]
ErrOut(st, msg, loc) == [st |-> [st EXCEPT !.en = @ + 1], k |-> "err", var |-> 0, val |-> <<>>, sp |-> <<>>, msg |-> msg, loc |-> loc]
\* Reading fails: what has been read of a token may be lost with it.
ReadFails(st) == [st |-> [st EXCEPT !.en = @ + 1], k |-> "fatal", var |-> 0, val |-> <<>>, sp |-> <<>>, msg |-> "", loc |-> <<>>]

EofVar(LX) == LET e == {i \in 1..Len(LX.vars) : LX.vars[i].kind = "eof"} IN IF e = {} THEN 0 ELSE CHOOSE i \in e : TRUE

Token(LX, txt, st) ==
  LET up == Upcoming(txt, st)
      s == Scan(LX, txt, up)
      text == SubSeq(up, s.b + 1, s.n)
      st1 == TakeN(txt, st, s.b)
      st2 == TakeN(txt, st1, s.n - s.b)
      first == IF s.b = Len(up) THEN st1.loc ELSE TakeN(txt, st1, 1).loc
      last == IF s.n = s.b THEN first ELSE st2.loc
      ends == s.n = Len(up)
      tag == VTag(LX.T, LX.rules, s.v)
  IN
  IF ends /\ txt.bad THEN {ReadFails(st2), ReadFails(st1)}
  ELSE IF tag # <<>> THEN
    LET x == LX.vars[tag[1]]
        c == Conv(x.conv, text) IN
    IF c = <<>> THEN {ErrOut(st2, "invalid " \o x.called, first)}
    ELSE {TokOut(st2, tag[1], c[1], first \o last)}
  ELSE IF ends /\ s.n = s.b THEN
    LET e == EofVar(LX) IN
    IF e = 0 THEN {ErrOut(st2, "unexpected end-of-file", first)}
    ELSE {TokOut(st2, e, <<>>, first \o first)}
  ELSE IF ends THEN {ErrOut(st2, "unexpected end-of-file", first)}
  ELSE {ErrOut(st2, "unrecognized token", first)}

\* The source fails while the token is read.
TokenFails(LX, txt, st) == {ReadFails(TakeN(txt, st, m)) : m \in 0..Len(Upcoming(txt, st))}
============================================================================
