---------------------------- MODULE RenderModel ----------------------------
(* Render against what its pictures have to show: marks under exactly the   *)
(* cells of the spanned columns, first and last columns of several lines,   *)
(* all numbers and lines in order, at most four middle lines.               *)
EXTENDS Render, FiniteSets
CONSTANTS LEN, LINES

\* 97 'a' takes a cell, 26085 two, 769 none, a tab two
Alpha == {97, 26085, 769, 9}
Wd == [c \in Alpha |-> CASE c = 97 -> 1 [] c = 26085 -> 2 [] c = 769 -> 0 [] OTHER -> 7]
Lines == UNION {[1..n -> Alpha] : n \in 0..LEN}
VARIABLES kind, file, sp
vars == <<kind, file, sp>>
Fill(n) == [i \in 1..n |-> <<<<97, 48 + (i % 10)>>>>]
W2 == [c \in Alpha \cup 48..57 |-> IF c \in Alpha THEN Wd[c] ELSE 1]
Short == UNION {[1..k -> Alpha] : k \in 0..2}
\* the first line first, then the rest
Init == \/ /\ kind = "one?"
           /\ \E at \in {1, 9, 10, 100} : \E x \in Lines : file = Fill(at - 1) \o <<<<x>>>> /\ sp = <<at, 1, at, 1>>
        \/ /\ kind = "many?"
           /\ \E at \in {1, 8, 97} : \E x \in Short : file = Fill(at - 1) \o <<<<x>>>> /\ sp = <<at, 1, at, 1>>
Next == \/ /\ kind = "one?" /\ kind' = "one" /\ UNCHANGED file
           /\ \E c1, c2 \in 1..LEN + 2 : sp' = <<sp[1], c1, sp[1], c2>>
        \/ /\ kind = "many?" /\ kind' = "many"
           /\ \E n \in 1..LINES : \E y \in Short : \E c1, c2 \in 1..3 :
                /\ file' = file \o Fill(n - 1) \o <<<<y>>>> /\ sp' = <<sp[1], c1, sp[1] + n, c2>>
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------- the pictures
Rows == LET f == FoldLeft(LAMBDA a, c : IF c = 10 THEN [a EXCEPT !.d = Append(@, a.c), !.c = <<>>] ELSE [a EXCEPT !.c = Append(@, c)], [d |-> <<>>, c |-> <<>>], Excerpt(<<file>>, W2, sp)) IN f.d
W(c) == IF c = 9 THEN 2 ELSE W2[c]
CellWidth(t) == FoldLeft(LAMBDA a, c : a + W(c), 0, t)
\* place of the bar in a row
BarAt(row) == CHOOSE i \in 1..Len(row) : row[i] = 124 /\ \A j \in 1..i - 1 : row[j] # 124
Aligned(r, b) == \A i \in 1..Len(r) : Len(r[i]) >= b /\ r[i][b] = 124 /\ \A j \in 1..b - 1 : r[i][j] # 124
\* cells, from 0, taken by the characters of columns a..b of a line
CellSet(line, a, b) == UNION { {CellWidth(SubSeq(line, 1, k - 1)) + d : d \in 0..W(line[k]) - 1} : k \in {k \in 1..Len(line) : a <= k /\ k <= b} }
Number(row) == LET d == SelectSeq(SubSeq(row, 1, BarAt(row) - 1), LAMBDA c : c # 32) IN d
OneOk == kind = "one" =>
  LET r == Rows line == file[sp[1]][1] b == BarAt(r[1])
      want == CellSet(line, sp[2], Larger(sp[2], sp[4]))
      got == {i - 1 : i \in {i \in 1..Len(r[3]) - b - 1 : r[3][b + 1 + i] = 94}}
  IN /\ Len(r) = 3 /\ Aligned(r, b)
     /\ Number(r[2]) = Digits(sp[1]) /\ SubSeq(r[2], b + 2, Len(r[2])) = Shown(line)
     /\ \A i \in b + 2..Len(r[3]) : r[3][i] \in {32, 94}
     /\ want # {} => got = want
     /\ want = {} => Cardinality(got) = 1
\* the mark under a column: the last cell of its character
ManyOk == kind = "many" =>
  LET r == Rows x == file[sp[1]][1] y == file[sp[3]][1] b == BarAt(r[1]) n == Len(r)
      \* where the text of the lines begins: behind the bar, a space, and two more cells
      Caret(row) == (CHOOSE i \in 1..Len(row) : row[i] = 94) - (b + 4)
      OnlyOne(row) == Cardinality({i \in 1..Len(row) : row[i] = 94}) = 1 /\ row[Len(row)] = 94
      Ends(line, c) == CellWidth(SubSeq(line, 1, Smaller(c, Len(line)))) - 1
      nums == [i \in 1..n |-> Number(r[i])]
      shown == SelectSeq(nums, LAMBDA d : d # <<>>)
      lines == sp[3] - sp[1] + 1
  IN /\ Aligned(r, b)
     /\ Number(r[2]) = Digits(sp[1]) /\ SubSeq(r[2], b + 4, Len(r[2])) = Shown(x)
     /\ OnlyOne(r[3]) /\ Caret(r[3]) = Ends(x, sp[2])
     /\ Number(r[n - 1]) = Digits(sp[3]) /\ SubSeq(r[n - 1], b + 4, Len(r[n - 1])) = Shown(y)
     /\ OnlyOne(r[n]) /\ Caret(r[n]) = Ends(y, sp[4])
     /\ n = 5 + Smaller(lines - 2, 4)
     /\ \A i \in 4..n - 2 : \/ \E k \in sp[1] + 1..sp[3] - 1 : nums[i] = Digits(k) /\ SubSeq(r[i], b + 4, Len(r[i])) = Shown(file[k][1])
                            \/ lines > 6 /\ i = 6 /\ \A j \in 1..Len(nums[i]) : nums[i][j] = 46
     /\ lines <= 6 => \A i \in 4..n - 2 : nums[i] = Digits(sp[1] + i - 3)
============================================================================
