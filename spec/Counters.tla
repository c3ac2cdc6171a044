------------------------------ MODULE Counters ------------------------------
(* The counters of a source, used by several threads: every call of the     *)
(* logger adds one in a single step. With ATOMIC = FALSE the addition is a   *)
(* load and a store; then calls are lost, which the checks have to see.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS THREADS, CALLS, ATOMIC

Kinds == {"error", "warning", "look"}
VARIABLES cnt,      \* kind -> count
          done,     \* thread -> number of calls made
          tmp,      \* thread -> what it loaded, <<kind, value>> or <<>>
          made,     \* kind -> calls that were completed
          seen      \* thread -> the last count of errors it saw
vars == <<cnt, done, tmp, made, seen>>
T == 1..THREADS
Init == /\ cnt = [k \in {"error", "warning"} |-> 0] /\ made = cnt
        /\ done = [t \in T |-> 0] /\ tmp = [t \in T |-> <<>>] /\ seen = [t \in T |-> 0]
Add(t, k) == /\ ATOMIC /\ cnt' = [cnt EXCEPT ![k] = @ + 1] /\ made' = [made EXCEPT ![k] = @ + 1]
             /\ done' = [done EXCEPT ![t] = @ + 1] /\ UNCHANGED <<tmp, seen>>
Load(t, k) == /\ ~ATOMIC /\ tmp[t] = <<>> /\ tmp' = [tmp EXCEPT ![t] = <<k, cnt[k]>>] /\ UNCHANGED <<cnt, done, made, seen>>
Store(t) == /\ tmp[t] # <<>> /\ cnt' = [cnt EXCEPT ![tmp[t][1]] = tmp[t][2] + 1] /\ made' = [made EXCEPT ![tmp[t][1]] = @ + 1]
            /\ tmp' = [tmp EXCEPT ![t] = <<>>] /\ done' = [done EXCEPT ![t] = @ + 1] /\ UNCHANGED seen
Look(t) == /\ tmp[t] = <<>> /\ seen' = [seen EXCEPT ![t] = cnt["error"]] /\ done' = [done EXCEPT ![t] = @ + 1] /\ UNCHANGED <<cnt, made, tmp>>
Next == \E t \in T : done[t] < CALLS /\ (Look(t) \/ Store(t) \/ \E k \in {"error", "warning"} : Add(t, k) \/ Load(t, k))
Spec == Init /\ [][Next]_vars

NeverLost == cnt = made
\* what a thread saw is never more than what was counted, and grows
Grows == [][\A t \in T : seen'[t] >= seen[t]]_vars
Bounded == \A t \in T : seen[t] <= cnt["error"]
============================================================================
