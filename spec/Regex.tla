------------------------------- MODULE Regex -------------------------------
(* Regular expressions and what it means to match them, by partial         *)
(* derivatives: a state is the set of what may still have to be matched.   *)
(*                                                                         *)
(* A tree is a sequence of nodes, children before parents:                 *)
(*   [t |-> "eps" | "cls" | "cat" | "alt" | "rep", r |-> closed ranges,    *)
(*    k |-> indexes of the children, min, max |-> bounds (max -1: none)]   *)
(* A continuation is a sequence of items <<node, min, max>> to be matched  *)
(* one after the other; a residual is a set of continuations.              *)
EXTENDS Integers, Sequences, SequencesExt

\* Per node: does it match the empty string / any string at all.
Nullable(nodes) ==
  FoldLeft(LAMBDA a, n : Append(a,
             CASE n.t = "eps" -> TRUE
               [] n.t = "cls" -> FALSE
               [] n.t = "cat" -> \A i \in 1..Len(n.k) : a[n.k[i]]
               [] n.t = "alt" -> \E i \in 1..Len(n.k) : a[n.k[i]]
               [] n.t = "rep" -> n.min = 0 \/ a[n.k[1]]),
           <<>>, nodes)
Productive(nodes) ==
  FoldLeft(LAMBDA a, n : Append(a,
             CASE n.t = "eps" -> TRUE
               [] n.t = "cls" -> n.r # <<>>
               [] n.t = "cat" -> \A i \in 1..Len(n.k) : a[n.k[i]]
               [] n.t = "alt" -> \E i \in 1..Len(n.k) : a[n.k[i]]
               [] n.t = "rep" -> n.min = 0 \/ a[n.k[1]]),
           <<>>, nodes)

\* T = [nodes |->, nul |-> Nullable, pro |-> Productive]
Tree(nodes) == [nodes |-> nodes, nul |-> Nullable(nodes), pro |-> Productive(nodes)]
Item(T, n) == <<n, T.nodes[n].min, T.nodes[n].max>>
Items(T, ns) == [i \in 1..Len(ns) |-> Item(T, ns[i])]

ItemNull(T, x) == IF T.nodes[x[1]].t = "rep" THEN x[2] = 0 \/ T.nul[T.nodes[x[1]].k[1]] ELSE T.nul[x[1]]
ItemPro(T, x) == IF T.nodes[x[1]].t = "rep" THEN x[2] = 0 \/ T.pro[T.nodes[x[1]].k[1]] ELSE T.pro[x[1]]

InRanges(c, r) == \E i \in 1..Len(r) : r[i][1] <= c /\ c <= r[i][2]

RECURSIVE DItem(_, _, _), DCont(_, _, _)
\* The continuations of one item, of a continuation, behind symbol c.
DItem(T, x, c) ==
  LET n == T.nodes[x[1]] IN
  CASE n.t = "eps" -> {}
    [] n.t = "cls" -> IF InRanges(c, n.r) THEN {<<>>} ELSE {}
    [] n.t = "alt" -> UNION {DItem(T, Item(T, n.k[i]), c) : i \in 1..Len(n.k)}
    [] n.t = "cat" -> DCont(T, Items(T, n.k), c)
    [] n.t = "rep" ->
         IF x[3] = 0 THEN {}
         ELSE LET more == IF x[3] = 1 THEN <<>>
                          ELSE << <<x[1], IF x[2] > 0 THEN x[2] - 1 ELSE 0, IF x[3] < 0 THEN -1 ELSE x[3] - 1>> >>
              IN {d \o more : d \in DItem(T, Item(T, n.k[1]), c)}
DCont(T, s, c) ==
  IF s = <<>> THEN {}
  ELSE {d \o Tail(s) : d \in DItem(T, Head(s), c)}
       \cup (IF ItemNull(T, Head(s)) THEN DCont(T, Tail(s), c) ELSE {})

ContPro(T, s) == \A i \in 1..Len(s) : ItemPro(T, s[i])
ContNull(T, s) == \A i \in 1..Len(s) : ItemNull(T, s[i])

\* Residuals hold productive continuations only: they are live iff not empty.
Residual(T, root) == {s \in {<<Item(T, root)>>} : ContPro(T, s)}
Deriv(T, R, c) == {d \in UNION {DCont(T, s, c) : s \in R} : ContPro(T, d)}
Accepts(T, R) == \E s \in R : ContNull(T, s)

\* Vectors: one residual per rule of a set of tagged expressions.
\* rules = Seq([root, tag, ...])
VInit(T, rules) == [i \in 1..Len(rules) |-> Residual(T, rules[i].root)]
VStep(T, v, c) == [i \in 1..Len(v) |-> Deriv(T, v[i], c)]
VLive(v) == \E i \in 1..Len(v) : v[i] # {}
\* The smallest tag of the expressions that match, as 1-tuple, or <<>>.
VTag(T, rules, v) ==
  LET hits == {rules[i].tag : i \in {j \in 1..Len(v) : Accepts(T, v[j])}}
  IN IF hits = {} THEN <<>> ELSE <<CHOOSE t \in hits : \A u \in hits : t <= u>>
VRun(T, v, s) == FoldLeft(LAMBDA w, c : VStep(T, w, c), v, s)

\* What building a set may answer. bytes: only byte symbols are possible.
Outcomes(T, rules, mode) ==
  LET bad == {i \in 1..Len(rules) : ~rules[i].ok}
      rest == {i \in 1..Len(rules) : rules[i].ok}
      unsup == {i \in rest : rules[i].look \/ rules[i].lazy \/ (mode # "char" /\ rules[i].uclass)}
      void == {i \in rest : ~T.pro[rules[i].root]}
      empty == {i \in rest : rules[i].empty}
      utf8 == {i \in rest : rules[i].badutf8}
      errs == {<<"regex", rules[i].tag>> : i \in bad}
              \cup (IF unsup # {} THEN {<<"unsupported", 0>>} ELSE {})
              \cup (IF utf8 # {} THEN {<<"utf8", 0>>} ELSE {})
              \cup (IF void # {} THEN {<<"nothing", 0>>} ELSE {})
  IN IF rules = <<>> THEN {<<"emptybuilder", 0>>}
     ELSE IF errs # {} THEN errs
     ELSE {<<"ok", 0>>} \cup (IF empty # {} THEN {<<"nothing", 0>>} ELSE {})

\* The texts of the errors: they name an operation that is used, or say what the
\* parser of the syntax says.
Says(rules, mode, k, tag) ==
  LET some(P(_)) == \E i \in 1..Len(rules) : rules[i].ok /\ P(rules[i]) IN
  CASE k = "ok" -> {""}
    [] k = "emptybuilder" -> {"no regular expressions in the builder"}
    [] k = "regex" -> {rules[i].says : i \in {j \in 1..Len(rules) : ~rules[j].ok /\ rules[j].tag = tag}}
    [] k = "unsupported" -> (IF some(LAMBDA x : x.look) THEN {"look-around assertion is not supported"} ELSE {})
                            \cup (IF some(LAMBDA x : x.lazy) THEN {"non-greedy matching is not supported"} ELSE {})
                            \cup (IF mode # "char" /\ some(LAMBDA x : x.uclass) THEN {"Unicode in byte mode is not supported"} ELSE {})
    [] k = "utf8" -> {"invalid UTF-8 string in regex"}
    [] k = "nothing" -> {"the regex matches nothing"}
    [] OTHER -> {}
============================================================================
