------------------------------ MODULE TraceFA ------------------------------
(* Are the recorded histories of real automata those of FA?                *)
EXTENDS FA, Json, IOUtils, TLC

TR == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, fas, used, ok, exp
View == <<tid, l, fas, used, ok>>
tr == TR[tid]
Set(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(Set(s)) = Len(s)
Bag(s) == [x \in Set(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

Init == tid \in 1..Len(TR) /\ l = 0 /\ fas = <<>> /\ used = {} /\ ok = TRUE /\ exp = <<>>

\* Does what was seen of an automaton agree with it?
Label(s) == IF s = 0 THEN "None" ELSE "Some(" \o ToString(s) \o ")"
Looks(A, r) ==
  /\ Set(r.states) = A.states /\ NoDup(r.states)
  /\ Set(r.finals) = A.finals /\ NoDup(r.finals)
  /\ r.init = A.init
  /\ r.final = FinalId(A)
  /\ Bag([i \in 1..Len(r.edges) |-> <<r.edges[i][1], r.edges[i][2], r.edges[i][3]>>]) = Bag(A.edges)
  /\ Bag(r.inits) = Bag([i \in 1..Len(From(A, A.init)) |-> From(A, A.init)[i][3]])
  \* the Graphviz text
  /\ Set(r.dot.finals) = A.finals /\ NoDup(r.dot.finals)
  /\ Bag(r.dot.edges) = Bag([i \in 1..Len(A.edges) |-> <<A.edges[i][1], Label(A.edges[i][2]), A.edges[i][3]>>])
  /\ r.dot.other = <<"digraph finite_automaton {", "rankdir = LR", "node [shape = doublecircle];", "node [shape = circle];", "}">>
SeenState(A, x, r) ==
  IF x \notin A.states THEN r = <<>>
  ELSE LET mine == [i \in 1..Len(From(A, x)) |-> <<From(A, x)[i][2], From(A, x)[i][3]>>] IN
    /\ r # <<>>
    /\ Bag(r[1]) = Bag(mine)
    /\ tr.dense => \A s \in 1..4 : r[2][s] \in NextStates(A, x, s - 1)
RECURSIVE Sets(_, _, _)
Sets(A, X, syms) == IF syms = <<>> THEN <<>>
  ELSE LET Y == IF Head(syms) = 0 THEN Closure(A, X) ELSE Move(A, X, Head(syms)) IN <<Y>> \o Sets(A, Y, Tail(syms))

Next == /\ ok /\ l < Len(tr.ops)
        /\ LET o == tr.ops[l + 1]
               r == o.ret
               i == IF "fa" \in DOMAIN o THEN o.fa + 1 ELSE 0
               Put(A) == [fas EXCEPT ![i] = A]
           IN
           CASE o.op = "new" -> /\ fas' = Append(fas, New(r)) /\ used' = used \cup {r} /\ ok' = (r \notin used) /\ exp' = used
             [] o.op = "add" -> /\ fas' = Put(AddState(fas[i], r)) /\ used' = used \cup {r} /\ ok' = (r \notin used) /\ exp' = used
             [] o.op = "addf" -> /\ fas' = Put(AddFinal(fas[i], r)) /\ used' = used \cup {r} /\ ok' = (r \notin used) /\ exp' = used
             [] o.op = "setf" -> /\ fas' = Put(SetFinal(fas[i], o.x)) /\ used' = used /\ exp' = (o.x \in fas[i].states) /\ ok' = (r = exp')
             [] o.op = "setn" -> /\ fas' = Put(SetNormal(fas[i], o.x)) /\ used' = used /\ exp' = (o.x \in fas[i].states) /\ ok' = (r = exp')
             [] o.op = "edge" -> /\ fas' = Put(AddEdge(fas[i], o.x, o.s, o.y, tr.dense)) /\ used' = used /\ exp' = (o.x \in fas[i].states) /\ ok' = (r = exp')
             [] o.op = "union" -> /\ fas' = Put(Union(fas[i], fas[o.j + 1])) /\ used' = used /\ exp' = 0 /\ ok' = (r = 0)
             [] o.op = "look" -> /\ UNCHANGED <<fas, used>> /\ exp' = fas[i] /\ ok' = Looks(fas[i], r)
             [] o.op = "state" -> /\ UNCHANGED <<fas, used>> /\ exp' = From(fas[i], o.x) /\ ok' = SeenState(fas[i], o.x, r)
             [] o.op = "threads" -> /\ fas' = fas /\ used' = used \cup Set(r) /\ exp' = 201 * o.n
                                    /\ ok' = (Set(r) \cap used = {} /\ NoDup(r) /\ Len(r) = 201 * o.n)
             [] o.op = "closures" -> /\ UNCHANGED <<fas, used>>
                                     /\ exp' = [syms |-> SymbolSet(fas[i]), sets |-> Sets(fas[i], Set(o.from), o.syms)]
                                     /\ ok' = (Set(r.syms) = exp'.syms /\ [j \in 1..Len(r.sets) |-> Set(r.sets[j])] = exp'.sets)
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, fas, used, ok, exp>>
Conforms == ok
============================================================================
