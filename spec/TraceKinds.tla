----------------------------- MODULE TraceKinds -----------------------------
(* Token kinds: conversions from and to payloads, and texts.                *)
EXTENDS Names, Json, IOUtils, TLC

TR == ndJsonDeserialize(IOEnv.TRACE)
ER == ndJsonDeserialize(IOEnv.ENUMS)

VARIABLES tid, l, ok, exp
vars == <<tid, l, ok, exp>>
E == ER[TR[tid].e]
Ops == TR[tid].ops

\* A value of variant n with a payload whose text is pd ("" if it has none).
Text(n, pd) == LET x == E.vars[n] IN IF x.kind = "one" THEN Called(x) \o " `" \o pd \o "`" ELSE Called(x)
\* Converting it into each payload type: the payload, or a failure.
Into(n, pd) == [i \in 1..Len(E.pays) |-> IF E.pays[i] = n THEN <<pd>> ELSE <<>>]
Expected(o, pd) == [disp |-> Text(o.var, pd), pd |-> pd,
                    from |-> IF E.vars[o.var].kind = "one" THEN o.var ELSE 0,
                    own |-> Into(o.var, pd), by_ref |-> Into(o.var, pd), var |-> o.var, eq |-> TRUE]

Init == tid \in 1..Len(TR) /\ l = 0 /\ ok = TRUE /\ exp = <<>>
Next == /\ ok /\ l < Len(Ops)
        /\ LET o == Ops[l + 1] IN /\ exp' = Expected(o, o.ret.pd)
                                  /\ ok' = (exp' = o.ret)
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Conforms == ok
============================================================================
