----------------------------- MODULE TraceDecls -----------------------------
(* Did the compiler accept the declarations it has to, and no other? A     *)
(* macro that panics is no verdict.                                        *)
EXTENDS Decls, Json, IOUtils, TLC

TR == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, ok, exp
Init == tid \in 1..Len(TR) /\ ok = TRUE /\ exp = {}
Next == /\ exp = {}
        /\ exp' = Verdicts(TR[tid])
        /\ ok' = (TR[tid].verdict \in exp')
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, ok, exp>>
Conforms == ok
============================================================================
