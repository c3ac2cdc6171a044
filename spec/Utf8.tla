------------------------------- MODULE Utf8 -------------------------------
(* UTF-8 as Unicode defines it: the longest valid prefix of a byte string, *)
(* decoded, and the encoding of a character.                               *)
EXTENDS Integers, Sequences, SequencesExt

\* One step of the decoder. State: cs decoded so far, need = continuation bytes
\* missing, val = bits so far, lo..hi = range of the next continuation byte.
D0 == [cs |-> <<>>, bad |-> FALSE, need |-> 0, val |-> 0, lo |-> 128, hi |-> 191]

DStep(d, b) ==
  IF d.bad THEN d
  ELSE IF d.need = 0 THEN
    CASE b < 128 -> [d EXCEPT !.cs = Append(@, b)]
      [] b \in 194..223 -> [d EXCEPT !.need = 1, !.val = b - 192, !.lo = 128, !.hi = 191]
      [] b = 224 -> [d EXCEPT !.need = 2, !.val = 0, !.lo = 160, !.hi = 191]
      [] b = 237 -> [d EXCEPT !.need = 2, !.val = 13, !.lo = 128, !.hi = 159]
      [] b \in 225..239 /\ b # 237 -> [d EXCEPT !.need = 2, !.val = b - 224, !.lo = 128, !.hi = 191]
      [] b = 240 -> [d EXCEPT !.need = 3, !.val = 0, !.lo = 144, !.hi = 191]
      [] b \in 241..243 -> [d EXCEPT !.need = 3, !.val = b - 240, !.lo = 128, !.hi = 191]
      [] b = 244 -> [d EXCEPT !.need = 3, !.val = 4, !.lo = 128, !.hi = 143]
      [] OTHER -> [d EXCEPT !.bad = TRUE]
  ELSE IF b < d.lo \/ b > d.hi THEN [d EXCEPT !.bad = TRUE]
  ELSE LET v == d.val * 64 + (b - 128) IN
    IF d.need = 1 THEN [d EXCEPT !.cs = Append(@, v), !.need = 0, !.val = 0, !.lo = 128, !.hi = 191]
    ELSE [d EXCEPT !.need = @ - 1, !.val = v, !.lo = 128, !.hi = 191]

Decoder(bytes) == FoldLeft(DStep, D0, bytes)

\* [cs |-> the characters of the longest valid prefix, bad |-> is there more]
\* (a text of ASCII characters is its own decoding)
Decode(bytes) ==
  IF \A i \in 1..Len(bytes) : bytes[i] < 128 THEN [cs |-> bytes, bad |-> FALSE]
  ELSE LET d == Decoder(bytes) IN [cs |-> d.cs, bad |-> d.bad \/ d.need > 0]

Encode(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

IsScalar(c) == c \in 0..1114111 /\ c \notin 55296..57343
============================================================================
