------------------------------- MODULE Render -------------------------------
(* What logging prints: texts are sequences of code points. A file is the   *)
(* sequence of its lines, each <<characters>> or <<>> if it is not text;    *)
(* wd maps the characters of the file to the cells they take.               *)
EXTENDS Utf8, TLC

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Codes(s) == [i \in 1..Len(s) |-> 31 + CHOOSE k \in 1..Len(ASCII) : SubSeq(ASCII, k, k) = SubSeq(s, i, i)]
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE
             LET RECURSIVE D(_) D(x) == IF x < 10 THEN <<48 + x>> ELSE Append(D(x \div 10), 48 + (x % 10)) IN D(n)
Times(n, c) == [i \in 1..n |-> c]
Blank(n) == Times(n, 32)
NL == <<10>>
Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b
TheError == Codes("error: ")
TheWarning == Codes("warning: ")
TheAt == Codes("  at ")
BAR == 124
UP == 94
UNDER == 95
DOT == 46

\* ---------------------------------------------------------------- lines
\* The lines of a file given as bytes: line feeds end lines, a carriage return in front of one belongs to it.
LinesOf(bytes) ==
  LET ends == SelectSeq([i \in 1..Len(bytes) |-> i], LAMBDA i : bytes[i] = 10)
      From(k) == IF k = 1 THEN 1 ELSE ends[k - 1] + 1
      Strip(x) == IF x # <<>> /\ x[Len(x)] = 13 THEN SubSeq(x, 1, Len(x) - 1) ELSE x
      Text(x) == IF \A i \in 1..Len(x) : x[i] < 128 THEN <<x>> ELSE LET d == Decode(x) IN IF d.bad THEN <<>> ELSE <<d.cs>>
      rest == SubSeq(bytes, From(Len(ends) + 1), Len(bytes))
  IN [k \in 1..Len(ends) |-> Text(Strip(SubSeq(bytes, From(k), ends[k] - 1)))] \o (IF rest = <<>> THEN <<>> ELSE <<Text(rest)>>)
\* Lines behind the end of the file are empty.
LineAt(file, n) == IF n <= Len(file) THEN file[n] ELSE <<<<>>>>

\* ---------------------------------------------------------------- cells
TAB == 2
Cells(wd, c) == IF c = 9 THEN TAB ELSE wd[c]
CellsOf(wd, line, n) == FoldLeft(LAMBDA a, c : a + Cells(wd, c), 0, SubSeq(line, 1, Smaller(n, Len(line))))
\* The line as it is shown (by halves: lines may be long).
RECURSIVE Spread(_)
Spread(s) == IF Len(s) < 2 THEN (IF s = <<9>> THEN Blank(TAB) ELSE s)
             ELSE LET h == Len(s) \div 2 IN Spread(SubSeq(s, 1, h)) \o Spread(SubSeq(s, h + 1, Len(s)))
Shown(line) == IF \A i \in 1..Len(line) : line[i] # 9 THEN line
               ELSE Spread(line)
Right(w, n) == LET d == Digits(n) IN Blank(w - Len(d)) \o d

\* ------------------------------------------------------- source excerpts
\* sp = <<line, column, line, column>>; <<>> if a line that is needed is no text.
OneLine(file, wd, sp) ==
  LET x == LineAt(file, sp[1])
      w == Len(Digits(sp[1]))
      before == CellsOf(wd, x[1], sp[2] - 1)
      marked == CellsOf(wd, x[1], Larger(sp[2], sp[4])) - before
      \* nothing to mark: the cell in front
      lead == IF marked > 0 THEN before ELSE Larger(before - 1, 0)
  IN IF x = <<>> THEN <<>>
     ELSE << Blank(w) \o <<32, BAR>> \o NL
             \o Right(w, sp[1]) \o <<32, BAR, 32>> \o Shown(x[1]) \o NL
             \o Blank(w) \o <<32, BAR, 32>> \o Blank(lead) \o Times(Larger(marked, 1), UP) \o NL >>
\* The numbers of the middle lines that are shown; 0 stands for the ellipsis.
Middle(a, b) == IF b - a - 1 <= 4 THEN [i \in 1..b - a - 1 |-> a + i] ELSE <<a + 1, a + 2, 0, b - 1>>
ManyLines(file, wd, sp) ==
  LET a == sp[1] b == sp[3]
      w == Larger(Len(Digits(b)), 2)
      mid == Middle(a, b)
      need == {a, b} \cup ({mid[i] : i \in 1..Len(mid)} \ {0})
      x == LineAt(file, a) y == LineAt(file, b)
      MidText(n) == IF n = 0 THEN Times(w, DOT) \o <<32, BAR, 32, BAR>> \o NL
                    ELSE Right(w, n) \o <<32, BAR, 32, BAR, 32>> \o Shown(LineAt(file, n)[1]) \o NL
      last == CellsOf(wd, y[1], sp[4])
  IN IF \E n \in need : LineAt(file, n) = <<>> THEN <<>>
     ELSE << Blank(w) \o <<32, BAR>> \o NL
             \o Right(w, a) \o <<32, BAR, 32, 32, 32>> \o Shown(x[1]) \o NL
             \o Blank(w) \o <<32, BAR, 32, 32>> \o Times(CellsOf(wd, x[1], sp[2]), UNDER) \o <<UP>> \o NL
             \o FoldLeft(LAMBDA t, n : t \o MidText(n), <<>>, mid)
             \o Right(w, b) \o <<32, BAR, 32, BAR, 32>> \o Shown(y[1]) \o NL
             \o Blank(w) \o <<32, BAR, 32>> \o (IF last = 0 THEN <<32>> ELSE <<BAR>>) \o Times(last, UNDER) \o <<UP>> \o NL >>
Marks(sp) == sp[1] > 0 /\ sp[1] <= sp[3] /\ sp[2] > 0 /\ sp[4] > 0
\* file: <<>> if there is none (or it cannot be opened), or <<lines>>
Excerpt(file, wd, sp) ==
  IF file = <<>> \/ ~Marks(sp) THEN <<>>
  ELSE LET t == IF sp[1] = sp[3] THEN OneLine(file[1], wd, sp) ELSE ManyLines(file[1], wd, sp) IN
       IF t = <<>> THEN <<>> ELSE t[1]

\* ------------------------------------------------------------- messages
Place(name, sp) == name \o <<58>> \o Digits(sp[1]) \o <<58>> \o Digits(sp[2])
Raw(sev, msg) == (IF sev = "warning" THEN TheWarning ELSE TheError) \o msg \o NL
Full(sev, msg, name, file, wd, sp) == Raw(sev, msg) \o TheAt \o Place(name, sp) \o NL \o Excerpt(file, wd, sp) \o NL
Count(n, one) == IF n = 0 THEN <<>> ELSE Digits(n) \o <<32>> \o Codes(one) \o (IF n > 1 THEN <<115>> ELSE <<>>)
Summary(e, w) == Count(e, "error") \o (IF e # 0 /\ w # 0 THEN Codes(" and ") ELSE <<>>) \o Count(w, "warning") \o Codes(" emitted") \o NL
============================================================================
