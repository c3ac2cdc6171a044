------------------------------- MODULE Names -------------------------------
(* How variants are called in messages and texts: their documentation, or  *)
(* their name in lower-case words. Strings are TLC's strings.              *)
EXTENDS Integers, Sequences, SequencesExt

UP == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOW == "abcdefghijklmnopqrstuvwxyz"
Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]
Lower1(c) == LET h == {i \in 1..26 : Ch(UP, i) = c} IN IF h = {} THEN c ELSE Ch(LOW, CHOOSE i \in h : TRUE)
IsUp(c) == \E i \in 1..26 : Ch(UP, i) = c
Lowered(s) == FoldLeft(LAMBDA a, c : a \o Lower1(c), "", Chars(s))

\* StringLiteral -> "string literal"
WordsOf(s) == FoldLeft(LAMBDA a, c : IF IsUp(c) /\ a # "" THEN a \o " " \o Lower1(c) ELSE a \o Lower1(c), "", Chars(s))

RECURSIVE Trim(_)
Trim(s) == IF s = "" THEN s
           ELSE IF Ch(s, 1) = " " THEN Trim(SubSeq(s, 2, Len(s)))
           ELSE IF Ch(s, Len(s)) = " " THEN Trim(SubSeq(s, 1, Len(s) - 1))
           ELSE s
\* The lines of the documentation, joined by spaces.
DocText(lines) == IF lines = <<>> THEN ""
                  ELSE Trim(FoldLeft(LAMBDA a, x : a \o " " \o Trim(x), Trim(lines[1]), Tail(lines)))
NoStop(s) == IF s # "" /\ Ch(s, Len(s)) = "." THEN SubSeq(s, 1, Len(s) - 1) ELSE s

\* A variant: [name |-> identifier, docs |-> lines of documentation]
Called(x) == IF DocText(x.docs) = "" THEN WordsOf(x.name) ELSE NoStop(Lowered(DocText(x.docs)))
============================================================================
