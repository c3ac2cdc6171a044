---------------------------- MODULE StageCheck ----------------------------
(* Every stage between expressions and their table denotes the same tagged *)
(* language: the MIR before and after optimization (residuals), the NFAs   *)
(* made of both (subsets), the DFA built in the three ways (states), and   *)
(* the table. All of them are explored together, one representative symbol *)
(* from every interval that none of them can tell apart.                   *)
EXTENDS Regex, FiniteSets, Json, IOUtils, TLC

TR == ndJsonDeserialize(IOEnv.TRACE)
UNTAGGED == 999999
N == 1..Len(TR)
RefT == [i \in N |-> Tree(TR[i].ref.nodes)]
MirT == [i \in N |-> [j \in 1..Len(TR[i].mirs) |-> Tree(TR[i].mirs[j].nodes)]]

VARIABLES tid,
          v,   \* residuals of the reference
          w,   \* residuals of the MIRs
          S,   \* sets of states of the NFAs
          d,   \* states of the DFAs; 0: none
          q,   \* state of the table
          l
View == <<tid, v, w, S, d, q, Len(l) = 0>>
tr == TR[tid]

\* ------------------------------------------------------------- automata
\* outs[x]: the edges [r, y] of state x; r = <<>>: the empty symbol.
RECURSIVE Closure(_, _, _)
Closure(fa, front, X) ==
  LET Y == UNION {{fa.outs[x][i].y : i \in {j \in 1..Len(fa.outs[x]) : fa.outs[x][j].r = <<>>}} : x \in front} \ X
  IN IF Y = {} THEN X ELSE Closure(fa, Y, X \cup Y)
Targets(fa, X, c) == UNION {{fa.outs[x][i].y : i \in {j \in 1..Len(fa.outs[x]) : InRanges(c, fa.outs[x][j].r)}} : x \in X}
Move(fa, X, c) == LET Y == Targets(fa, X, c) IN Closure(fa, Y, Y)
FaTag(fa, X) ==
  LET h == {fa.fin[i][2] : i \in {j \in 1..Len(fa.fin) : fa.fin[j][1] \in X}}
  IN IF h = {} THEN <<>> ELSE <<CHOOSE t \in h : \A u \in h : t <= u>>
\* In a deterministic automaton.
DStep(fa, x, c) == LET t == Targets(fa, {x}, c) IN IF t = {} THEN 0 ELSE CHOOSE y \in t : TRUE
Deterministic(fa) ==
  \A x \in 1..fa.n : \A i \in 1..Len(fa.outs[x]) : \A j \in 1..(i - 1) :
    \A a \in 1..Len(fa.outs[x][i].r), b \in 1..Len(fa.outs[x][j].r) :
      fa.outs[x][i].r[a][2] < fa.outs[x][j].r[b][1] \/ fa.outs[x][j].r[b][2] < fa.outs[x][i].r[a][1]
NoEmpty(fa) == \A x \in 1..fa.n : \A i \in 1..Len(fa.outs[x]) : fa.outs[x][i].r # <<>>
Sound(fa) ==
  /\ fa.init \in 1..fa.n /\ fa.lost = 0 /\ Len(fa.outs) = fa.n
  /\ \A x \in 1..fa.n : \A i \in 1..Len(fa.outs[x]) : fa.outs[x][i].y \in 1..fa.n
  /\ \A i \in 1..Len(fa.fin) : fa.fin[i][1] \in 1..fa.n
  \* tags belong to final states
  /\ {fa.fin[i][1] : i \in 1..Len(fa.fin)} = {fa.finals[i] : i \in 1..Len(fa.finals)}
\* Moore: states are told apart by their tags and where their symbols lead.
RECURSIVE Refine(_, _, _, _)
Refine(fa, D, P, n) ==
  LET sig == TLCEval([x \in 1..fa.n |-> <<P[x], [i \in 1..Len(D[x]) |-> IF D[x][i] = 0 THEN {} ELSE {P[D[x][i]]}]>>])
      sigs == TLCEval({sig[x] : x \in 1..fa.n})
      m == Cardinality(sigs)
      seq == TLCEval(SetToSeq(sigs))
      R == TLCEval([x \in 1..fa.n |-> CHOOSE i \in 1..m : seq[i] = sig[x]])
  IN IF m = n THEN n ELSE Refine(fa, D, R, m)
Classes(fa, reps) ==
  LET D == TLCEval([x \in 1..fa.n |-> [i \in 1..Len(reps) |-> DStep(fa, x, reps[i])]])
      P == TLCEval([x \in 1..fa.n |-> FaTag(fa, {x})])
  IN Refine(fa, D, P, Cardinality({P[x] : x \in 1..fa.n}))

\* ------------------------------------------------------------- the table
tab == tr.tab
ClassOf(c) == LET h == {i \in 1..Len(tab.syms) : tab.syms[i][1] <= c /\ c <= tab.syms[i][2]}
              IN IF h = {} THEN -1 ELSE tab.syms[CHOOSE i \in h : TRUE][3]
Step(s, c) == LET k == ClassOf(c) IN
  IF s = tab.nst \/ k = -1 THEN tab.nst ELSE tab.table[k * tab.nst + s + 1]
TabTag(s) == LET h == {i \in 1..Len(tab.fin) : tab.fin[i][1] = s}
             IN IF h = {} THEN <<>> ELSE <<tab.fin[CHOOSE i \in h : TRUE][2]>>

\* The first step looks at the stages as they are and sets off (in a step, not
\* in Init, because TLC makes initial states one after another).
Init == /\ tid \in N
        /\ l = <<-1>>
        /\ v = <<>> /\ w = <<>> /\ S = <<>> /\ d = <<>> /\ q = 0
Start == /\ l = <<-1>>
         /\ l' = <<>>
         /\ tr.k = "ok"
         /\ v' = VInit(RefT[tid], tr.ref.rules)
         /\ w' = [i \in 1..Len(tr.mirs) |-> VInit(MirT[tid][i], tr.mirs[i].rules)]
         /\ S' = [i \in 1..Len(tr.nfas) |-> Closure(tr.nfas[i], {tr.nfas[i].init}, {tr.nfas[i].init})]
         /\ d' = [i \in 1..Len(tr.dfas) |-> tr.dfas[i].init]
         /\ q' = tab.init
         /\ UNCHANGED tid
Read == /\ l # <<-1>>
        /\ VLive(v)
        /\ \E i \in 1..Len(tr.reps) :
             LET c == tr.reps[i] IN
             /\ v' = VStep(RefT[tid], v, c)
             /\ w' = [j \in 1..Len(w) |-> VStep(MirT[tid][j], w[j], c)]
             /\ S' = [j \in 1..Len(S) |-> Move(tr.nfas[j], S[j], c)]
             /\ d' = [j \in 1..Len(d) |-> IF d[j] = 0 THEN 0 ELSE DStep(tr.dfas[j], d[j], c)]
             /\ q' = Step(q, c)
             /\ l' = Append(l, c)
        /\ UNCHANGED tid
Next == Start \/ Read
Spec == Init /\ [][Next]_<<tid, v, w, S, d, q, l>>

\* Only an expression that matches nothing cannot be optimized; what is not
\* supported is refused before.
Optimizes == l = <<-1>> => (tr.k \in {"ok", "nothing", "mir"} /\
  (tr.k = "mir" => <<"unsupported", 0>> \in Outcomes(RefT[tid], tr.ref.rules, tr.mode)) /\
  (tr.k = "nothing" => \/ \E i \in 1..Len(tr.ref.rules) : ~RefT[tid].pro[tr.ref.rules[i].root]
                       \/ \E j \in 1..Len(tr.ref.nodes) : tr.ref.nodes[j].t = "cls" /\ tr.ref.nodes[j].r = <<>>))
Ok == l # <<-1>>
At0 == l = <<>>
WellFormed == (Ok /\ At0) =>
  /\ \A i \in 1..Len(tr.nfas) : Sound(tr.nfas[i])
  /\ \A i \in 1..Len(tr.dfas) : Sound(tr.dfas[i]) /\ Deterministic(tr.dfas[i]) /\ NoEmpty(tr.dfas[i])
\* The optimized MIR speaks of disjoint sets of symbols.
DisjointSymbols == (Ok /\ At0) =>
  LET ns == tr.mirs[2].nodes
      sets == {ns[i].r : i \in {j \in 1..Len(ns) : ns[j].t = "cls"}}
  IN \A x, y \in sets : x = y \/ \A a \in 1..Len(x), b \in 1..Len(y) : x[a][2] < y[b][1] \/ y[b][2] < x[a][1]
Minimal == (Ok /\ At0) => \A i \in 1..Len(tr.dfas) : Classes(tr.dfas[i], tr.reps) = tr.dfas[i].n /\ tr.dfas[i].n = tab.nst
\* Nor are there two classes of symbols that lead to the same states.
Row(k) == SubSeq(tab.table, k * tab.nst + 1, (k + 1) * tab.nst)
FewClasses == (Ok /\ At0) =>
  LET ks == {tab.syms[i][3] : i \in 1..Len(tab.syms)} IN Cardinality({Row(k) : k \in ks}) = Cardinality(ks)

Ref == VTag(RefT[tid], tr.ref.rules, v)
RefDfa == IF Ref = <<UNTAGGED>> THEN <<>> ELSE Ref     \* DFAs know tags only
SameMir == Ok => \A i \in 1..Len(w) : VTag(MirT[tid][i], tr.mirs[i].rules, w[i]) = Ref /\ (VLive(w[i]) <=> VLive(v))
SameNfa == Ok => \A i \in 1..Len(S) : FaTag(tr.nfas[i], S[i]) = Ref /\ (S[i] # {} <=> VLive(v))
SameDfa == Ok => \A i \in 1..Len(d) : FaTag(tr.dfas[i], {d[i]}) = RefDfa /\ (d[i] # 0 <=> VLive(v))
SameTable == Ok => TabTag(q) = RefDfa /\ (q < tab.nst <=> VLive(v))
============================================================================
