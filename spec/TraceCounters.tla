--------------------------- MODULE TraceCounters ---------------------------
(* Recorded runs of logging calls on several threads: there has to be an    *)
(* order of the calls, in which every call adds one, that explains what the *)
(* threads saw; and the counts of long runs are the numbers of calls.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, Json, IOUtils, TLC
TR == ndJsonDeserialize(IOEnv.TRACE)
Errors == {"error", "fatal", "rawerror", "rawfatal"}
Warnings == {"warning", "rawwarning"}

\* small runs: cut = number of calls each thread has made
Calls(t, cut, src, kinds) == FoldLeft(LAMBDA a, i : a + Cardinality({j \in 1..cut[i] : t.threads[i][j].src = src /\ t.threads[i][j].kind \in kinds}), 0, [i \in 1..Len(t.threads) |-> i])
Can(t, cut, i) == /\ cut[i] < Len(t.threads[i])
                  /\ LET c == t.threads[i][cut[i] + 1] IN
                     CASE c.kind = "errors" -> c.v = Calls(t, cut, c.src, Errors)
                       [] c.kind = "warnings" -> c.v = Calls(t, cut, c.src, Warnings)
                       [] OTHER -> TRUE
StepOf(t, cuts) == UNION { { [cut EXCEPT ![i] = @ + 1] : i \in {i \in 1..Len(t.threads) : Can(t, cut, i)} } : cut \in cuts }
Full(t) == [i \in 1..Len(t.threads) |-> Len(t.threads[i])]
TotalOf(t) == FoldLeft(LAMBDA a, x : a + Len(x), 0, t.threads)
SmallOk(t) == /\ t.k = "ok"
              /\ Full(t) \in FoldLeft(LAMBDA s, x : StepOf(t, s), {[i \in 1..Len(t.threads) |-> 0]}, [i \in 1..TotalOf(t) |-> i])
              /\ \A s \in 1..Len(t.end) : t.end[s] = <<Calls(t, Full(t), s, Errors), Calls(t, Full(t), s, Warnings)>>
\* long runs
Sum(t, kinds) == FoldLeft(LAMBDA a, c : IF c.kind \in kinds THEN a + c.n ELSE a, 0, t.calls)
LongOk(t) == t.errors = Sum(t, Errors) /\ t.warnings = Sum(t, Warnings) /\ t.others = 0

VARIABLES tid, l, ok
vars == <<tid, l, ok>>
Init == tid \in 1..Len(TR) /\ l = 0 /\ ok = TRUE
Next == /\ l = 0 /\ l' = 1 /\ UNCHANGED tid
        /\ ok' = LET t == TR[tid] IN IF "calls" \in DOMAIN t THEN LongOk(t) ELSE SmallOk(t)
Spec == Init /\ [][Next]_vars
Conforms == ok
============================================================================
