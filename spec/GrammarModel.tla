---------------------------- MODULE GrammarModel ----------------------------
(* Is the specified parsing the documented shape? For every type built from  *)
(* the constructors below up to a depth and every short word: the language   *)
(* of the type is defined by its shape alone (no prediction), and parsing is *)
(* compared with it.                                                         *)
EXTENDS Grammar, FiniteSets, TLC

CONSTANTS DEPTH, WORDLEN, HEADS

\* A type is a term <<constructor, parts...>>; the token types are <<"tok", k>>.
Toks == {<<"tok", k>> : k \in 0..2}
One == {"opt", "vec", "neseq"}
Two == {"tuple", "sepseq", "optsepseq", "nesepseq", "neoptsepseq", "neseplist", "neoptseplist",
        "optprefix", "opttokprefix", "tokprefix"}

RECURSIVE Nullable(_), FirstSet(_), Exact(_), Lang(_, _)
Nullable(t) ==
  CASE t[1] = "tok" -> FALSE
    [] t[1] \in {"opt", "vec", "sepseq", "optsepseq"} -> TRUE
    [] t[1] \in {"tuple", "tokprefix"} -> Nullable(t[2]) /\ Nullable(t[3])
    [] t[1] \in {"optprefix", "opttokprefix"} -> Nullable(t[3])
    [] OTHER -> Nullable(t[2])
FirstSet(t) ==
  CASE t[1] = "tok" -> {t[2]}
    [] t[1] \in {"tuple", "tokprefix"} -> FirstSet(t[2]) \cup (IF Nullable(t[2]) THEN FirstSet(t[3]) ELSE {})
    [] t[1] \in {"optprefix", "opttokprefix"} -> FirstSet(t[2]) \cup FirstSet(t[3])
    [] OTHER -> FirstSet(t[2])
\* Prediction by the first token is exact for the type.
Exact(t) ==
  CASE t[1] = "tok" -> TRUE
    [] t[1] \in {"opt", "vec", "sepseq", "optsepseq"} -> FALSE
    [] t[1] \in {"optprefix"} -> Exact(t[2]) /\ Exact(t[3])
    [] t[1] \in {"opttokprefix", "tokprefix"} -> t[2][1] = "tok" /\ Exact(t[3])
    [] OTHER -> Exact(t[2])

\* Could one token always decide, when a token of F (or the end) follows?
RECURSIVE LL1(_, _)
LL1(t, F) ==
  CASE t[1] = "tok" -> TRUE
    [] t[1] = "opt" -> Exact(t[2]) /\ FirstSet(t[2]) \cap F = {} /\ LL1(t[2], F)
    [] t[1] \in {"vec", "neseq"} -> Exact(t[2]) /\ FirstSet(t[2]) \cap F = {} /\ LL1(t[2], F \cup FirstSet(t[2]))
    [] t[1] \in {"tuple"} -> LL1(t[2], FirstSet(t[3]) \cup (IF Nullable(t[3]) THEN F ELSE {})) /\ LL1(t[3], F)
    [] t[1] = "tokprefix" -> LL1(t[2], FirstSet(t[3])) /\ LL1(t[3], F)
    [] t[1] \in {"optprefix", "opttokprefix"} ->
         Exact(t[2]) /\ FirstSet(t[2]) \cap FirstSet(t[3]) = {} /\ ~Nullable(t[3]) /\ LL1(t[2], FirstSet(t[3])) /\ LL1(t[3], F)
    [] OTHER ->
         /\ Exact(t[2]) /\ Exact(t[3])
         /\ FirstSet(t[3]) \cap F = {}
         /\ (t[1] \in {"sepseq", "optsepseq"} => FirstSet(t[2]) \cap F = {})
         /\ (t[1] \in {"optsepseq", "neoptsepseq", "neoptseplist"} => FirstSet(t[2]) \cap F = {})
         /\ LL1(t[2], F \cup FirstSet(t[3])) /\ LL1(t[3], FirstSet(t[2]) \cup (IF t[1] \in {"optsepseq", "neoptsepseq", "neoptseplist"} THEN F ELSE {}))

\* The types with at most d levels; repeated elements consume something.
RECURSIVE Types(_)
Types(d) ==
  IF d = 0 THEN Toks
  ELSE LET T == Types(d - 1)
           NN == {t \in T : ~Nullable(t)} IN
    T \cup {<<c, x>> : c \in One, x \in NN} \cup {<<"tuple", x, y>> : x \in T, y \in T}
      \cup {<<c, x, y>> : c \in {"optprefix"}, x \in NN, y \in T}
      \cup {<<c, x, y>> : c \in {"opttokprefix", "tokprefix"}, x \in Toks, y \in T}
      \cup {<<c, x, y>> : c \in Two \ {"tuple", "optprefix", "opttokprefix", "tokprefix"}, x \in NN, y \in (IF d > 1 THEN NN ELSE Toks)}

\* The language by shape: is w a word of t?
Splits(w) == {<<SubSeq(w, 1, i), SubSeq(w, i + 1, Len(w))>> : i \in 0..Len(w)}
RECURSIVE Reps(_, _), SepL(_, _, _, _)
Reps(t, w) == w = <<>> \/ \E s \in Splits(w) : s[1] # <<>> /\ Lang(t, s[1]) /\ Reps(t, s[2])
\* x (s x)* with an optional last s; alone: only the part behind an x.
SepL(x, s, w, opt) ==
  \E p \in Splits(w) :
    Lang(x, p[1]) /\ (\/ p[2] = <<>>
                      \/ \E q \in Splits(p[2]) :
                           q[1] # <<>> /\ Lang(s, q[1]) /\ ((opt /\ q[2] = <<>>) \/ (q[2] # <<>> /\ SepL(x, s, q[2], opt))))
Lang(t, w) ==
  CASE t[1] = "tok" -> w = <<t[2]>>
    [] t[1] = "opt" -> w = <<>> \/ Lang(t[2], w)
    [] t[1] = "vec" -> Reps(t[2], w)
    [] t[1] = "neseq" -> w # <<>> /\ Reps(t[2], w)
    [] t[1] \in {"tuple", "tokprefix"} -> \E s \in Splits(w) : Lang(t[2], s[1]) /\ Lang(t[3], s[2])
    [] t[1] \in {"optprefix", "opttokprefix"} -> Lang(t[3], w) \/ \E s \in Splits(w) : Lang(t[2], s[1]) /\ Lang(t[3], s[2])
    [] t[1] = "sepseq" -> w = <<>> \/ SepL(t[2], t[3], w, FALSE)
    [] t[1] = "optsepseq" -> w = <<>> \/ SepL(t[2], t[3], w, TRUE)
    [] t[1] \in {"nesepseq", "neseplist"} -> SepL(t[2], t[3], w, FALSE)
    [] t[1] \in {"neoptsepseq", "neoptseplist"} -> SepL(t[2], t[3], w, TRUE)

\* The term as nodes: the node of a subterm is its place in a list.
RECURSIVE Flat(_)
Node(t, a, pats) == [t |-> t, a |-> a, pats |-> pats, sw |-> <<>>, vs |-> <<>>, want |-> ""]
Shift(ns, k) == [i \in 1..Len(ns) |-> [ns[i] EXCEPT !.a = [j \in 1..Len(@) |-> @[j] + k]]]
\* The root is the last node.
Flat(t) ==
  IF t[1] = "tok" THEN <<Node("tok", <<>>, <<[k |-> t[2], lo |-> 0, hi |-> 9, m |-> 1, r |-> 0]>>)>>
  ELSE IF Len(t) = 2 THEN LET x == Flat(t[2]) IN Append(x, Node(t[1], <<Len(x)>>, <<>>))
  ELSE LET x == Flat(t[2]) y == Shift(Flat(t[3]), Len(x))
       IN Append(x \o y, Node(t[1], <<Len(x), Len(x) + Len(y)>>, <<>>))

Words == UNION {[1..n -> 0..2] : n \in 0..WORDLEN}
Script(w) == [items |-> [i \in 1..Len(w) |-> i], eof |-> Len(w) + 1,
              toks |-> [i \in 1..Len(w) + 1 |-> [k |-> IF i > Len(w) THEN 9 ELSE w[i], v |-> 0, sp |-> <<i, 1, i, 2>>]]]

VARIABLES term, w, done, par, may
vars == <<term, w, done, par, may>>
Init == /\ term \in {t \in Types(DEPTH) : t[1] \in HEADS}
        /\ w \in Words
        /\ done = FALSE /\ par = 0 /\ may = 0
Next == /\ ~done /\ done' = TRUE
        /\ LET G == Flat(term)
               S == [q |-> <<>>, p |-> 0] IN
           /\ par' = Parse(Script(w), G, Len(G), S)
           /\ may' = Maybe(Script(w), G, Len(G), S)
        /\ UNCHANGED <<term, w>>
Spec == Init /\ [][Next]_vars

Used == par.S.p - Len(par.S.q)       \* tokens consumed
Word == SubSeq(w, 1, Used)
\* What is parsed has the shape, and holds its tokens in order.
Sound == done /\ par.k = "ok" => /\ Used <= Len(w)
                                 /\ Lang(term, Word)
                                 /\ \A i \in 1..Len(Leaves(par.v)) - 1 : Leaves(par.v)[i] < Leaves(par.v)[i + 1]
                                 /\ ToSet(Leaves(par.v)) \subseteq 1..Used
\* Where one token decides, the longest prefix that has the shape is found.
Complete == done /\ LL1(term, {9}) =>
  LET good == {n \in 0..Len(w) : Lang(term, SubSeq(w, 1, n))} IN
  \/ par.k = "ok" /\ \A n \in good : n <= Used
  \/ par.k = "err" /\ \A n \in good : \E m \in n + 1..Len(w) + 1 : m = par.at  \* behind a complete prefix an element was begun
\* An error: what was read can be continued to a word, the next token cannot be part of one.
Continues(u) == \E x \in UNION {[1..n -> 0..2] : n \in 0..3} : Lang(term, u \o x)
Located == done /\ par.k = "err" /\ LL1(term, {9}) /\ Len(w) <= 3 =>
  /\ par.at = Used + 1
  /\ (Used <= 2 /\ DEPTH <= 1 => Continues(Word))
  /\ (par.at <= Len(w) => ~Lang(term, SubSeq(w, 1, par.at)))
\* Prediction consumes nothing, holds if parsing succeeds, and is the first-token condition where that is exact.
RECURSIVE OneToken(_)
OneToken(t) == t[1] = "tok" \/ (t[1] \notin {"opttokprefix", "tokprefix"} /\ \A i \in 2..Len(t) : OneToken(t[i]))
Predicts == done => /\ may.k = "ok" /\ may.S.p - Len(may.S.q) = 0
                    /\ (par.k = "ok" => may.v)
                    /\ (Exact(term) /\ OneToken(term)
                          => (may.v <=> (w # <<>> /\ w[1] \in FirstSet(term))))
============================================================================
