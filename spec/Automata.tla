----------------------------- MODULE Automata -----------------------------
(* How matchers are made: tagged expressions -> NFA (nfa.rs) -> subset     *)
(* construction (dfa.rs). Explored together with the residuals of the same *)
(* expressions: all pairs of expressions with up to SIZE operators.        *)
EXTENDS Regex, FiniteSets, TLC, Json, Randomization

CONSTANTS Syms, SIZE1, SIZE2, SAMPLE, Variant

\* Expressions with exactly n operators.
RECURSIVE Exprs(_)
Exprs(n) ==
  IF n = 0 THEN {[t |-> "ch", c |-> s] : s \in Syms} \cup {[t |-> "eps"]}
  ELSE {[t |-> "star", a |-> x] : x \in Exprs(n - 1)}
       \cup UNION {{[t |-> o, a |-> x, b |-> y] : o \in {"cat", "alt"}, x \in Exprs(k), y \in Exprs(n - 1 - k)} : k \in 0..(n - 1)}
UpTo(n) == UNION {Exprs(k) : k \in 0..n}

\* The expression as a tree of Regex, appended to nodes; its root is the last one.
Node(t, r, k, mn, mx) == [t |-> t, r |-> r, k |-> k, min |-> mn, max |-> mx]
RECURSIVE Flat(_, _)
Flat(e, nodes) ==
  CASE e.t = "eps" -> Append(nodes, Node("eps", <<>>, <<>>, 0, 0))
    [] e.t = "ch" -> Append(nodes, Node("cls", <<<<e.c, e.c>>>>, <<>>, 0, 0))
    [] e.t = "star" -> LET a == Flat(e.a, nodes) IN Append(a, Node("rep", <<>>, <<Len(a)>>, 0, -1))
    [] e.t \in {"cat", "alt"} ->
         LET a == Flat(e.a, nodes) b == Flat(e.b, a)
         IN Append(b, Node(e.t, <<>>, <<Len(a), Len(b)>>, 0, 0))

\* An NFA: hi = last state used, edges <<from, symbol or 0 for empty, to>>,
\* fin = final states, tags = pairs <<state, tag>>.
Chr(base, s) == [hi |-> base + 2, init |-> base + 1, fin |-> {base + 2}, tags |-> {}, edges |-> {<<base + 1, s, base + 2>>}]
Tagged(n) == {x[1] : x \in n.tags}
\* Routes the finals to a new normal state n.hi of the result.
Normalize(n, base) ==
  LET t == base + 1 IN
  [n EXCEPT !.hi = t, !.edges = @ \cup {<<f, 0, t>> : f \in n.fin}, !.fin = {f \in @ : f \in Tagged(n)}]
\* Before the repair, the target could be the only final state itself.
NormalizeOld(n, base) ==
  IF Cardinality(n.fin) = 1 /\ Tagged(n) = {}
  THEN [n EXCEPT !.hi = CHOOSE f \in n.fin : TRUE, !.fin = {}]
  ELSE Normalize(n, base)
\* Final(n, tag): the normalized target as final state.
Finish(n, tag) == [n EXCEPT !.fin = @ \cup {n.hi}, !.tags = @ \cup (IF tag = 0 THEN {} ELSE {<<n.hi, tag>>})]

\* Every builder takes the last state used so far and returns [n |-> NFA, used |->].
RECURSIVE Build(_, _)
Merge(a, b) == [hi |-> b.hi, init |-> a.init, fin |-> a.fin \cup b.fin, tags |-> a.tags \cup b.tags, edges |-> a.edges \cup b.edges]
Max2(a, b) == IF a > b THEN a ELSE b
Norm(n, used) == LET m == IF Variant = "original" THEN NormalizeOld(n, used) ELSE Normalize(n, used)
                 IN [n |-> m, used |-> Max2(used, m.hi)]
Alter(n1, t1, n2, t2, used) ==
  LET x == Norm(n1, used)
      m1 == Finish(x.n, t1)
      y == IF t2 = 0 THEN [n |-> n2, used |-> x.used] ELSE Norm(n2, x.used)
      m2 == IF t2 = 0 THEN n2 ELSE Finish(y.n, t2)
  IN [n |-> [Merge(m1, m2) EXCEPT !.edges = @ \cup {<<m1.init, 0, m2.init>>}], used |-> y.used]
Build(e, used) ==
  CASE e.t = "eps" -> [n |-> Chr(used, 0), used |-> used + 2]
    [] e.t = "ch" -> [n |-> Chr(used, e.c), used |-> used + 2]
    [] e.t = "alt" -> LET a == Build(e.a, used) b == Build(e.b, a.used) IN Alter(a.n, 0, b.n, 0, b.used)
    [] e.t = "cat" -> LET a == Build(e.a, used) b == Build(e.b, a.used) x == Norm(a.n, b.used)
                      IN [n |-> [Merge(x.n, b.n) EXCEPT !.edges = @ \cup {<<x.n.hi, 0, b.n.init>>}], used |-> x.used]
    [] e.t = "star" ->
         LET a == Build(e.a, used)
             x == Norm(a.n, a.used)
             loop == [x.n EXCEPT !.edges = @ \cup {<<x.n.hi, 0, x.n.init>>}, !.fin = @ \cup {x.n.hi}]
             i == x.used + 1
         IN IF Variant = "original"
            \* the old initial state was made final and reused
            THEN [n |-> [loop EXCEPT !.fin = @ \cup {loop.init}], used |-> x.used]
            ELSE [n |-> [loop EXCEPT !.init = i, !.fin = @ \cup {i}, !.edges = @ \cup {<<i, 0, loop.init>>}], used |-> i]

\* The set of tagged expressions, from left to right.
NFA(es) ==
  IF Len(es) = 1 THEN LET a == Build(es[1].e, 0) x == Norm(a.n, a.used) IN Finish(x.n, es[1].tag)
  ELSE LET a == Build(es[1].e, 0) b == Build(es[2].e, a.used) IN Alter(a.n, es[1].tag, b.n, es[2].tag, b.used).n

RECURSIVE Closure(_, _)
Closure(n, S) == LET S2 == S \cup {x[3] : x \in {y \in n.edges : y[2] = 0 /\ y[1] \in S}}
                 IN IF S2 = S THEN S ELSE Closure(n, S2)
Move(n, S, c) == Closure(n, {x[3] : x \in {y \in n.edges : y[2] = c /\ y[1] \in S}})
FirstTag(n, S) == LET h == {x[2] : x \in {y \in n.tags : y[1] \in S}}
                  IN IF h = {} THEN <<>> ELSE <<CHOOSE t \in h : \A u \in h : t <= u>>

VARIABLES es, nfa, S, v, l
View == <<es, S, v>>

Rules == LET a == Flat(es[1].e, <<>>) IN
  IF Len(es) = 1 THEN [nodes |-> a, rules |-> <<[root |-> Len(a), tag |-> es[1].tag]>>]
  ELSE LET b == Flat(es[2].e, a) IN
    [nodes |-> b, rules |-> <<[root |-> Len(a), tag |-> es[1].tag], [root |-> Len(b), tag |-> es[2].tag]>>]
Tr == Tree(Rules.nodes)

Some(X) == IF SAMPLE = 0 \/ Cardinality(X) <= SAMPLE THEN X ELSE RandomSubset(SAMPLE, X)

Init == /\ es \in ({<<[e |-> x, tag |-> 1]>> : x \in UpTo(SIZE1)}
                   \cup {<<[e |-> x, tag |-> p[1]], [e |-> y, tag |-> p[2]]>> :
                           x \in Some(UpTo(SIZE2)), y \in Some(UpTo(SIZE2)), p \in {<<1, 2>>, <<2, 1>>, <<1, 1>>}})
        /\ nfa = NFA(es)
        /\ S = Closure(nfa, {nfa.init})
        /\ v = VInit(Tr, Rules.rules)
        /\ l = <<>>
Next == /\ \E c \in Syms : /\ S' = Move(nfa, S, c)
                           /\ v' = VStep(Tr, v, c)
                           /\ l' = Append(l, c)
        /\ UNCHANGED <<es, nfa>>
Spec == Init /\ [][Next]_<<es, nfa, S, v, l>>

SameTag == FirstTag(nfa, S) = VTag(Tr, Rules.rules, v)
SameLife == (S # {}) <=> VLive(v)
============================================================================
