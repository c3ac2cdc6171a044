--------------------------- MODULE TraceLiterals ---------------------------
(* Recorded conversions of literals.                                        *)
EXTENDS Literals, Json, IOUtils, TLC
TR == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, ok, exp
vars == <<tid, l, ok, exp>>
Ops == TR[tid].ops
\* Same as IntLit and SignedLit, with the number computed once.
All(f(_, _), x) == [i \in 1..Len(NAMES) |-> f(x, Types[NAMES[i]])]
UnsignedN(n, t) == IF n = None THEN None ELSE IF Fits(n[1], t) THEN Some(Bytes(n[1], t)) ELSE None
MinusN(n, t) == IF n = None THEN None ELSE IF FitsNeg(n[1], t) THEN Some(Negated(n[1], t)) ELSE None
NumOf(s) == LET x == Shape(s) IN IF x = None THEN None ELSE Some(Number(x[1]))
Expected(o) ==
  IF o.op = "int" THEN
    LET s == o.s
        body == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
        n == NumOf(body)
    IN [int |-> All(UnsignedN, IF body = s THEN n ELSE None),
        sint |-> IF s # <<>> /\ s[1] = 45 THEN All(MinusN, n) ELSE All(UnsignedN, n)]
  ELSE [str |-> StrLit(o.s), chr |-> CharLit(o.s)]
Init == tid \in 1..Len(TR) /\ l = 0 /\ ok = TRUE /\ exp = <<>>
Next == /\ ok /\ l < Len(Ops)
        /\ LET o == Ops[l + 1] IN /\ exp' = Expected(o)
                                  /\ ok' = (exp' = o.ret)
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Conforms == ok
============================================================================
