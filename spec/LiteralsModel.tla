--------------------------- MODULE LiteralsModel ---------------------------
(* Literals checked against plain arithmetic (for types TLC's integers can  *)
(* hold) and against the set of literals built from the documented escapes. *)
EXTENDS Literals, FiniteSets, TLC
CONSTANTS INTLEN, ITEMS

IA == {48, 49, 50, 55, 56, 57, 97, 102, 70, 98, 111, 120, 45, 43}
VARIABLES kind, w, want
vars == <<kind, w, want>>

\* Every escape and some characters, with what they denote.
Escapes == { <<<<92, 114>>, 13>>, <<<<92, 110>>, 10>>, <<<<92, 116>>, 9>>, <<<<92, 48>>, 0>>, <<<<92, 92>>, 92>>, <<<<92, 39>>, 39>>, <<<<92, 34>>, 34>>,
             <<<<92, 120, 48, 48>>, 0>>, <<<<92, 120, 102, 70>>, 255>>, <<<<92, 120, 52, 97>>, 74>>,
             <<<<92, 117, 123, 48, 125>>, 0>>, <<<<92, 117, 123, 100, 55, 102, 102, 125>>, 55295>>, <<<<92, 117, 123, 101, 48, 48, 48, 125>>, 57344>>,
             <<<<92, 117, 123, 49, 48, 70, 70, 70, 70, 125>>, 1114111>>, <<<<92, 117, 123, 48, 48, 48, 48, 48, 48, 48, 52, 49, 125>>, 65>> }
Raw(q) == { <<<<c>>, c>> : c \in {97, 32, 0, 233, 128514, 8232, 123, 125, 120, 117} \cup ({34, 39} \ {q}) }
Parts(q) == Escapes \cup Raw(q)
\* What is not the start of anything.
Broken == { <<92>>, <<92, 63>>, <<92, 120>>, <<92, 120, 52>>, <<92, 120, 103, 48>>, <<92, 117>>, <<92, 117, 123>>, <<92, 117, 123, 125>>, <<92, 117, 123, 49>>, <<92, 117, 123, 103, 125>>,
            <<92, 117, 123, 100, 56, 48, 48, 125>>, <<92, 117, 123, 100, 102, 102, 102, 125>>, <<92, 117, 123, 49, 49, 48, 48, 48, 48, 125>>, <<10>>, <<13>>, <<9>>, <<92, 88, 52, 49>>, <<92, 10>> }
QuoteOf(k) == IF k = "chr" THEN 39 ELSE 34

Init == \/ kind = "int" /\ w = <<>> /\ want = <<>>
        \/ kind \in {"str", "chr"} /\ w = <<QuoteOf(kind)>> /\ want = <<>>
Next == /\ UNCHANGED kind
        /\ \/ kind = "int" /\ Len(w) < INTLEN /\ \E c \in IA : w' = Append(w, c) /\ UNCHANGED want
           \/ kind # "int" /\ Len(want) < ITEMS /\ \E p \in Parts(QuoteOf(kind)) : w' = w \o p[1] /\ want' = Append(want, p[2])
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------ integers, plainly
DigitsOf(s, r) == s # <<>> /\ \A i \in 1..Len(s) : Hex(s[i]) < r
PlainVal(s, r) == FoldLeft(LAMBDA a, c : a * r + Hex(c), 0, s)
IsLit(s) == \/ DigitsOf(s, 10)
            \/ Len(s) > 2 /\ s[1] = 48 /\ ((s[2] = 98 /\ DigitsOf(SubSeq(s, 3, Len(s)), 2)) \/ (s[2] = 111 /\ DigitsOf(SubSeq(s, 3, Len(s)), 8)) \/ (s[2] = 120 /\ DigitsOf(SubSeq(s, 3, Len(s)), 16)))
ValOf(s) == IF Len(s) > 1 /\ s[2] \in {98, 111, 120} THEN PlainVal(SubSeq(s, 3, Len(s)), IF s[2] = 98 THEN 2 ELSE IF s[2] = 111 THEN 8 ELSE 16) ELSE PlainVal(s, 10)
Pow(k) == IF k = 1 THEN 256 ELSE 65536
\* the value of the bytes as an unsigned number
Back(b) == FoldRight(LAMBDA x, a : a * 256 + x, b, 0)
Wrap(v, k) == (v + 4 * Pow(k)) % Pow(k)
Ok(v, k, sg) == IF sg THEN v >= -(Pow(k) \div 2) /\ v < Pow(k) \div 2 ELSE v < Pow(k)
Same(got, lit, v, k, sg) == IF lit /\ Ok(v, k, sg) THEN got # None /\ Back(got[1]) = Wrap(v, k) ELSE got = None
IntsRight == kind = "int" => \A t \in {"i8", "u8", "i16", "u16"} :
  LET k == Types[t][1] sg == Types[t][2] IN
  /\ Same(IntLit(w, Types[t]), IsLit(w), IF IsLit(w) THEN ValOf(w) ELSE 0, k, sg)
  /\ LET neg == w # <<>> /\ w[1] = 45
         body == IF w # <<>> /\ w[1] \in {43, 45} THEN Tail(w) ELSE w
         v == IF IsLit(body) THEN ValOf(body) ELSE 0
     IN /\ neg /\ ~sg => Same(SignedLit(w, Types[t]), IsLit(body) /\ v < Pow(k), IF v < Pow(k) THEN Wrap(-v, k) ELSE 0, k, sg)
        /\ ~(neg /\ ~sg) => Same(SignedLit(w, Types[t]), IsLit(body), IF neg THEN -v ELSE v, k, sg)
\* the same digits give the same number in wider types
Wider == kind = "int" => \A p \in {<<"i8", "i128">>, <<"u8", "u128">>, <<"i16", "i64">>, <<"u16", "usize">>} :
  LET a == SignedLit(w, Types[p[1]]) b == SignedLit(w, Types[p[2]]) IN a # None => b # None /\ SubSeq(b[1], 1, Len(a[1])) = a[1]

\* ---------------------------------------- strings, by their construction
StrRight == kind = "str" => /\ StrLit(Append(w, 34)) = Some(want)
                            /\ StrLit(w) = None
                            /\ StrLit(w \o <<34, 97>>) = None /\ StrLit(<<32>> \o w \o <<34>>) = None /\ StrLit(w \o <<34, 34>>) = None
                            /\ CharLit(Append(w, 34)) = None
                            /\ \A b \in Broken : StrLit(w \o b \o <<34>>) = None /\ StrLit(w \o b) = None
CharRight == kind = "chr" => /\ CharLit(Append(w, 39)) = (IF Len(want) = 1 THEN Some(want[1]) ELSE None)
                             /\ CharLit(w) = None /\ CharLit(w \o <<39, 39>>) = None
                             /\ StrLit(Append(w, 39)) = None
                             /\ \A b \in Broken : CharLit(w \o b \o <<39>>) = None
============================================================================
