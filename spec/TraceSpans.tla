----------------------------- MODULE TraceSpans -----------------------------
(* Recorded histories of spans, logging calls and tokens.                   *)
EXTENDS Spans, Json, IOUtils
TR == ndJsonDeserialize(IOEnv.TRACE)
LOGGER == IOEnv.LOGGER = "1"
\* bytes are recorded in runs: <<times, bytes>>
Expand(runs) == FoldLeft(LAMBDA a, r : a \o [i \in 1..r[1] * Len(r[2]) |-> r[2][((i - 1) % Len(r[2])) + 1]], <<>>, runs)
EnvOf(t) == [logger |-> LOGGER,
             files |-> [i \in 1..Len(t.files) |-> <<t.files[i].name, IF t.files[i].kind # "file" THEN <<>> ELSE << LinesOf(Expand(t.files[i].bytes)) >> >>],
             wd |-> [c \in {p[1] : p \in ToSet(t.wd)} |-> (CHOOSE p \in ToSet(t.wd) : p[1] = c)[2]]]
X == [i \in 1..Len(TR) |-> EnvOf(TR[i])]

VARIABLES tid, l, st, ok, exp
vars == <<tid, l, st, ok, exp>>
Ops == TR[tid].ops
Init == tid \in 1..Len(TR) /\ l = 0 /\ st = SInit /\ ok = TRUE /\ exp = <<>>
Next == /\ ok /\ l < Len(Ops)
        /\ LET o == Ops[l + 1] r == Do(X[tid], st, o) IN
           /\ st' = r.st
           /\ exp' = [k |-> "ok", v |-> r.v, view |-> View(r.st)]
           /\ ok' = (exp' = o.ret)
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Conforms == ok
============================================================================
