-------------------------------- MODULE FA --------------------------------
(* Finite automata as data: states with edges, final states, an initial    *)
(* state; the identity of a state is unique among all automata. Symbols    *)
(* are numbers, 0 is the empty symbol.                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

\* A: [states, init, finals, edges |-> Seq(<<x, s, y>>) in the order of
\*    adding; a set if the automaton is not dense]
New(id) == [states |-> {id}, init |-> id, finals |-> {}, edges |-> <<>>]
AddState(A, id) == [A EXCEPT !.states = @ \cup {id}]
AddFinal(A, id) == [AddState(A, id) EXCEPT !.finals = @ \cup {id}]
SetFinal(A, x) == IF x \in A.states THEN [A EXCEPT !.finals = @ \cup {x}] ELSE A
SetNormal(A, x) == IF x \in A.states THEN [A EXCEPT !.finals = @ \ {x}] ELSE A
AddEdge(A, x, s, y, dense) ==
  IF x \notin A.states \/ (~dense /\ \E i \in 1..Len(A.edges) : A.edges[i] = <<x, s, y>>) THEN A
  ELSE [A EXCEPT !.edges = Append(@, <<x, s, y>>)]
Union(A, B) == [A EXCEPT !.states = @ \cup B.states, !.finals = @ \cup B.finals, !.edges = @ \o B.edges]
FinalId(A) == IF Cardinality(A.finals) = 1 THEN <<CHOOSE x \in A.finals : TRUE>> ELSE <<>>
From(A, x) == SelectSeq(A.edges, LAMBDA e : e[1] = x)
\* The state behind a symbol: one of those that were added; absent only if there is none.
NextStates(A, x, s) == LET h == {A.edges[i][3] : i \in {j \in 1..Len(A.edges) : A.edges[j][1] = x /\ A.edges[j][2] = s}}
                       IN IF h = {} THEN {<<>>} ELSE {<<t>> : t \in h}

RECURSIVE Closure(_, _)
Closure(A, X) ==
  LET Y == X \cup {A.edges[i][3] : i \in {j \in 1..Len(A.edges) : A.edges[j][2] = 0 /\ A.edges[j][1] \in X}}
  IN IF Y = X THEN X ELSE Closure(A, Y)
Move(A, X, s) == Closure(A, {A.edges[i][3] : i \in {j \in 1..Len(A.edges) : A.edges[j][2] = s /\ A.edges[j][1] \in X}})
SymbolSet(A) == {A.edges[i][2] : i \in 1..Len(A.edges)} \ {0}
============================================================================
