---------------------------- MODULE TableCheck ----------------------------
(* Explores the product of every exported table with the residuals of the  *)
(* expressions it was built from. One representative symbol is taken from  *)
(* every interval on which neither can distinguish symbols, so agreement   *)
(* in all reachable states is agreement on all strings.                    *)
EXTENDS Regex, Json, IOUtils, TLC

TR == ndJsonDeserialize(IOEnv.TRACE)
Trees == [i \in 1..Len(TR) |-> Tree(TR[i].nodes)]

VARIABLES tid,
          q,   \* state of the table; the number of states means none
          v,   \* residuals
          l    \* symbols read (for reports)
View == <<tid, q, v>>

tr == TR[tid]
tab == tr.tab

\* Reading the table the documented way.
ClassOf(c) == LET h == {i \in 1..Len(tab.syms) : tab.syms[i][1] <= c /\ c <= tab.syms[i][2]}
              IN IF h = {} THEN -1 ELSE tab.syms[CHOOSE i \in h : TRUE][3]
Step(s, c) == LET k == ClassOf(c) IN
  IF k = -1 THEN tab.nst ELSE tab.table[k * tab.nst + s + 1]
TagOf(s) == LET h == {i \in 1..Len(tab.fin) : tab.fin[i][1] = s}
            IN IF h = {} THEN <<>> ELSE <<tab.fin[CHOOSE i \in h : TRUE][2]>>

Init == /\ tid \in 1..Len(TR)
        /\ l = <<>>
        /\ q = tab.init
        /\ v = IF tr.k = "ok" THEN VInit(Trees[tid], tr.rules) ELSE <<>>
Next == /\ tr.k = "ok"
        /\ q < tab.nst
        /\ \E i \in 1..Len(tr.reps) :
             LET c == tr.reps[i] IN
             /\ q' = Step(q, c)
             /\ v' = VStep(Trees[tid], v, c)
             /\ l' = Append(l, c)
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, q, v, l>>

BuildOutcome == l # <<>> \/ (/\ <<tr.k, tr.tag>> \in Outcomes(Trees[tid], tr.rules, tr.mode)
                              /\ tr.says \in Says(tr.rules, tr.mode, tr.k, tr.tag))
WellFormed == (l # <<>> \/ tr.k # "ok") \/
  /\ tab.init \in 0..(tab.nst - 1)
  /\ \A i \in 1..Len(tab.syms) : /\ tab.syms[i][1] <= tab.syms[i][2]
                                 /\ tab.syms[i][3] >= 0
                                 /\ (tab.syms[i][3] + 1) * tab.nst <= Len(tab.table)
                                 /\ i > 1 => tab.syms[i - 1][2] < tab.syms[i][1]
  /\ \A i \in 1..Len(tab.table) : tab.table[i] \in 0..tab.nst
  /\ \A i \in 1..Len(tab.fin) : tab.fin[i][1] \in 0..(tab.nst - 1)
\* The accessors say what the exported data say, and nothing about states there are not (-1: the largest state ID).
Accessors == (l # <<>> \/ tr.k # "ok") \/ \A i \in 1..Len(tab.asks) :
  LET a == tab.asks[i]
      valid == a[1] \in 0..(tab.nst - 1)
      n == IF valid THEN Step(a[1], a[2]) ELSE tab.nst IN
  /\ a[3] = IF n < tab.nst THEN <<n>> ELSE <<>>
  /\ a[4] = IF valid THEN TagOf(a[1]) ELSE <<>>
SameLanguage == tr.k = "ok" => (IF q < tab.nst THEN TagOf(q) = VTag(Trees[tid], tr.rules, v)
                                ELSE VTag(Trees[tid], tr.rules, v) = <<>>)
SameLife == tr.k = "ok" => ((q < tab.nst) <=> VLive(v))
============================================================================
