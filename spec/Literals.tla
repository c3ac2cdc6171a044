------------------------------ MODULE Literals ------------------------------
(* What integer, string and character literals denote. Texts are sequences  *)
(* of code points; integers are little-endian sequences of bytes, because   *)
(* TLC's own integers are too small for 128 bits.                           *)
EXTENDS Integers, Sequences, SequencesExt

None == <<>>
Some(x) == <<x>>
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99

\* ------------------------------------------------------------- integers
\* An unsigned literal: its base and the values of its digits.
AllDigits(d, r) == d # <<>> /\ \A i \in 1..Len(d) : Hex(d[i]) < r
Shape(s) ==
  LET pre == Len(s) >= 2 /\ s[1] = 48 /\ s[2] \in {98, 111, 120}
      r == IF ~pre THEN 10 ELSE CASE s[2] = 98 -> 2 [] s[2] = 111 -> 8 [] OTHER -> 16
      d == IF pre THEN SubSeq(s, 3, Len(s)) ELSE s
  IN IF AllDigits(d, r) THEN Some([r |-> r, d |-> [i \in 1..Len(d) |-> Hex(d[i])]]) ELSE None

\* Numbers: 17 bytes, the last one counting what does not fit into 128 bits (up to a bound).
LIMBS == 17
Zero == [i \in 1..LIMBS |-> 0]
Top(x) == IF x > 1000 THEN 1000 ELSE x
TimesPlus(n, r, d) ==
  LET f == FoldLeft(LAMBDA a, x : LET v == x * r + a.c IN
                      IF Len(a.o) = LIMBS - 1 THEN [o |-> Append(a.o, Top(v)), c |-> 0]
                      ELSE [o |-> Append(a.o, v % 256), c |-> v \div 256], [o |-> <<>>, c |-> d], n)
  IN f.o
Number(x) == FoldLeft(LAMBDA a, d : TimesPlus(a, x.r, d), Zero, x.d)

Types == [i8 |-> <<1, TRUE>>, i16 |-> <<2, TRUE>>, i32 |-> <<4, TRUE>>, i64 |-> <<8, TRUE>>, i128 |-> <<16, TRUE>>, isize |-> <<8, TRUE>>,
          u8 |-> <<1, FALSE>>, u16 |-> <<2, FALSE>>, u32 |-> <<4, FALSE>>, u64 |-> <<8, FALSE>>, u128 |-> <<16, FALSE>>, usize |-> <<8, FALSE>>]
NAMES == <<"i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize">>
Wide(n, k) == \E i \in k + 1..LIMBS : n[i] # 0
\* representable as it is, or negated
Fits(n, t) == ~Wide(n, t[1]) /\ (t[2] => n[t[1]] < 128)
FitsNeg(n, t) == ~Wide(n, t[1]) /\ (t[2] => n[t[1]] < 128 \/ (n[t[1]] = 128 /\ \A i \in 1..t[1] - 1 : n[i] = 0))
Bytes(n, t) == SubSeq(n, 1, t[1])
\* two's complement
Negated(n, t) == FoldLeft(LAMBDA a, x : LET v == 255 - x + a.c IN [o |-> Append(a.o, v % 256), c |-> v \div 256], [o |-> <<>>, c |-> 1], Bytes(n, t)).o

Unsigned(x, t) == IF x = None THEN None ELSE LET n == Number(x[1]) IN IF Fits(n, t) THEN Some(Bytes(n, t)) ELSE None
Minus(x, t) == IF x = None THEN None ELSE LET n == Number(x[1]) IN IF FitsNeg(n, t) THEN Some(Negated(n, t)) ELSE None
IntLit(s, t) == Unsigned(Shape(s), t)
SignedLit(s, t) == IF s = <<>> THEN None
                   ELSE IF s[1] = 45 THEN Minus(Shape(Tail(s)), t)
                   ELSE IF s[1] = 43 THEN Unsigned(Shape(Tail(s)), t)
                   ELSE Unsigned(Shape(s), t)

\* ----------------------------------------------- strings and characters
BACK == 92
Simple == [c \in {114, 110, 116, 48, 92, 39, 34} |->
             CASE c = 114 -> 13 [] c = 110 -> 10 [] c = 116 -> 9 [] c = 48 -> 0 [] OTHER -> c]
IsHex(c) == Hex(c) < 16
Scalar(v) == v \in 0..55295 \/ v \in 57344..1114111
\* The value of hexadecimal digits, bounded.
HexVal(d) == FoldLeft(LAMBDA a, c : LET v == a * 16 + Hex(c) IN IF v > 1114112 THEN 1114112 ELSE v, 0, d)
\* The first place from i on without a hexadecimal digit.
RECURSIVE HexEnd(_, _)
HexEnd(s, i) == IF i > Len(s) THEN i ELSE IF IsHex(s[i]) THEN HexEnd(s, i + 1) ELSE i
\* The character denoted at place i of a literal with quote q, and the next place; none if there is none.
Item(s, i, q) ==
  IF i > Len(s) THEN None
  ELSE LET c == s[i] IN
    IF c \in {10, 13, 9} \/ c = q THEN None
    ELSE IF c # BACK THEN Some([n |-> i + 1, c |-> c])
    ELSE IF i = Len(s) THEN None
    ELSE LET e == s[i + 1] IN
      IF e \in DOMAIN Simple THEN Some([n |-> i + 2, c |-> Simple[e]])
      ELSE IF e = 120 THEN
        (IF i + 3 <= Len(s) /\ IsHex(s[i + 2]) /\ IsHex(s[i + 3]) THEN Some([n |-> i + 4, c |-> Hex(s[i + 2]) * 16 + Hex(s[i + 3])]) ELSE None)
      ELSE IF e = 117 THEN
        (LET j == IF i + 2 > Len(s) \/ s[i + 2] # 123 THEN i ELSE HexEnd(s, i + 3) IN
         \* at least one digit, then the brace
         IF j < i + 4 \/ j > Len(s) THEN None
         ELSE IF s[j] # 125 THEN None
         ELSE LET v == HexVal(SubSeq(s, i + 3, j - 1)) IN
              IF Scalar(v) THEN Some([n |-> j + 1, c |-> v]) ELSE None)
      ELSE None
\* The items up to the closing quote, which must be the end. (No more items than characters.)
Items(s, i0, q) ==
  LET f == FoldLeft(LAMBDA a, k :
             IF a.i > Len(s) \/ a.stop THEN a
             ELSE IF s[a.i] = q THEN [a EXCEPT !.stop = TRUE]
             ELSE LET x == Item(s, a.i, q) IN
                  IF x = None THEN [a EXCEPT !.i = Len(s) + 1, !.stop = TRUE] ELSE [i |-> x[1].n, stop |-> FALSE, acc |-> Append(a.acc, x[1].c)],
             [i |-> i0, stop |-> FALSE, acc |-> <<>>], [k \in 1..Len(s) |-> k])
  IN IF f.stop /\ f.i = Len(s) THEN Some(f.acc) ELSE None
StrLit(s) == IF s # <<>> /\ s[1] = 34 THEN Items(s, 2, 34) ELSE None
CharLit(s) == IF s # <<>> /\ s[1] = 39 THEN (LET x == Items(s, 2, 39) IN IF x # None /\ Len(x[1]) = 1 THEN Some(x[1][1]) ELSE None) ELSE None
============================================================================
