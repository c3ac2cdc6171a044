------------------------------ MODULE Grammar ------------------------------
(* What the AST types of laps stand for: parsing and prediction of every    *)
(* predefined type, of derived structs and enums and of token types, over   *)
(* the abstract token stream.                                               *)
EXTENDS TokenStream

\* A grammar is a sequence of nodes [t, a, pats, sw, vs]: the type, its parts
\* (indices of nodes), the pattern of a token type, the declared first tokens
\* of a derived type, the variants of an enum (sequences of indices).
\* A value is a flat sequence: a token is its index, everything else a tag
\* (negative), the number of its parts, and the parts.
V(tag, parts) == <<tag, Len(parts)>> \o FlattenSeq(parts)

TOTUPLE == -1  TVEC == -2  TNONE == -3  TSOME == -4  TSEQ == -5
TONE == -6     TSEP == -7  TMORE == -8  TSTRUCT == -9   \* an enum's variant n: -10 - n

RECURSIVE Parse(_, _, _, _), Maybe(_, _, _, _), ParseAll(_, _, _, _, _), ParseWhile(_, _, _, _, _),
          MaybeAny(_, _, _, _), MaybeChain(_, _, _, _, _, _), ParseSep(_, _, _, _, _, _), FirstVariant(_, _, _, _, _)

\* Bind: go on with f if the answer is ok.
Then(a, f(_)) == IF a.k = "ok" THEN f(a) ELSE a
Map(a, f(_)) == IF a.k = "ok" THEN [a EXCEPT !.v = f(@)] ELSE a

\* Parses the types in sequence; v collects the values.
ParseAll(sc, G, ns, S, v) ==
  IF ns = <<>> THEN OkA(v, S)
  ELSE Then(Parse(sc, G, Head(ns), S), LAMBDA a : ParseAll(sc, G, Tail(ns), a.S, Append(v, a.v)))
\* Parses elements as long as one is predicted.
ParseWhile(sc, G, n, S, v) ==
  Then(Maybe(sc, G, n, S), LAMBDA m :
    IF ~m.v THEN OkA(v, m.S)
    ELSE Then(Parse(sc, G, n, m.S), LAMBDA a : ParseWhile(sc, G, n, a.S, Append(v, a.v))))
\* T S T S ...: an element is due. With opt, the last delimiter may stay alone.
\* seps tells whether delimiters are kept.
ParseSep(sc, G, nd, S, v, opt) ==
  LET keep == nd.t \in {"neseplist", "neoptseplist"} IN
  Then(Parse(sc, G, nd.a[1], S), LAMBDA a :
    LET v1 == Append(v, a.v) IN
    Then(Maybe(sc, G, nd.a[2], a.S), LAMBDA m :
      IF ~m.v THEN OkA(v1, m.S)
      ELSE Then(Parse(sc, G, nd.a[2], m.S), LAMBDA b :
        LET v2 == IF keep THEN Append(v1, b.v) ELSE v1 IN
        IF opt
        THEN Then(Maybe(sc, G, nd.a[1], b.S), LAMBDA m2 :
               IF m2.v THEN ParseSep(sc, G, nd, m2.S, v2, opt) ELSE OkA(v2, m2.S))
        ELSE ParseSep(sc, G, nd, b.S, v2, opt))))

\* The value of a list T S T S T as nested cells.
RECURSIVE Cells(_)
Cells(v) == IF Len(v) = 1 THEN V(TONE, v)
            ELSE IF Len(v) = 2 THEN V(TSEP, v)
            ELSE V(TMORE, <<v[1], v[2], Cells(SubSeq(v, 3, Len(v)))>>)

MaybeAny(sc, G, ns, S) ==
  IF ns = <<>> THEN OkA(FALSE, S)
  ELSE IF Head(ns) = 0 THEN OkA(TRUE, S)      \* a variant without fields
  ELSE Then(Maybe(sc, G, Head(ns), S), LAMBDA m :
         IF m.v THEN m ELSE MaybeAny(sc, G, Tail(ns), m.S))
\* The first tokens are, one after another, of the declared token types.
\* What was looked at (d) goes back. All of them are looked at.
MaybeChain(sc, G, ns, S, d, b) ==
  IF ns = <<>> THEN OkA(b, [S EXCEPT !.q = d \o @])
  ELSE LET f == Fetch(sc, S, 1) IN
    IF f.k = "err" THEN [f EXCEPT !.S = [@ EXCEPT !.q = d \o @]]
    ELSE LET n == Next1(sc, f.S) IN
      MaybeChain(sc, G, Tail(ns), n.S, Append(d, n.v), b /\ Accepts(sc, n.v, G[Head(ns)].pats))
First(fields) == IF fields = <<>> THEN 0 ELSE Head(fields)
\* The variant to parse: the first that is predicted, else the last.
FirstVariant(sc, G, vs, S, n) ==
  IF n = Len(vs) \/ vs[n] = <<>> THEN OkA(n, S)
  ELSE Then(Maybe(sc, G, vs[n][1], S), LAMBDA m :
         IF m.v THEN OkA(n, m.S) ELSE FirstVariant(sc, G, vs, m.S, n + 1))

Parse(sc, G, n, S) ==
  LET nd == G[n] IN
  CASE nd.t = "tok" ->
         LET f == Fetch(sc, S, 1) IN
         IF f.k = "err" THEN f
         ELSE IF Accepts(sc, f.v[1], nd.pats) THEN OkA(<<f.v[1]>>, Next1(sc, f.S).S)
         ELSE [ExpectedA(f.v[1], f.S) EXCEPT !.v = <<n>>]
    [] nd.t = "box" -> Parse(sc, G, nd.a[1], S)
    [] nd.t = "opt" ->
         Then(Maybe(sc, G, nd.a[1], S), LAMBDA m :
           IF m.v THEN Map(Parse(sc, G, nd.a[1], m.S), LAMBDA v : V(TSOME, <<v>>)) ELSE OkA(V(TNONE, <<>>), m.S))
    [] nd.t = "vec" -> Map(ParseWhile(sc, G, nd.a[1], S, <<>>), LAMBDA v : V(TVEC, v))
    [] nd.t = "tuple" -> Map(ParseAll(sc, G, nd.a, S, <<>>), LAMBDA v : V(TOTUPLE, v))
    [] nd.t = "neseq" ->
         Then(Parse(sc, G, nd.a[1], S), LAMBDA a :
           Map(ParseWhile(sc, G, nd.a[1], a.S, <<a.v>>), LAMBDA v : V(TSEQ, v)))
    [] nd.t \in {"sepseq", "optsepseq"} ->
         Then(Maybe(sc, G, nd.a[1], S), LAMBDA m :
           IF m.v THEN Map(ParseSep(sc, G, nd, m.S, <<>>, nd.t = "optsepseq"), LAMBDA v : V(TSEQ, v))
           ELSE OkA(V(TSEQ, <<>>), m.S))
    [] nd.t \in {"nesepseq", "neoptsepseq"} ->
         Map(ParseSep(sc, G, nd, S, <<>>, nd.t = "neoptsepseq"), LAMBDA v : V(TSEQ, v))
    [] nd.t \in {"neseplist", "neoptseplist"} ->
         Map(ParseSep(sc, G, nd, S, <<>>, nd.t = "neoptseplist"), Cells)
    [] nd.t = "quoted" -> Map(ParseAll(sc, G, nd.a, S, <<>>), LAMBDA v : V(TOTUPLE, v))
    [] nd.t \in {"optprefix", "opttokprefix"} ->
         Then(Maybe(sc, G, nd.a[1], S), LAMBDA m :
           IF m.v THEN Map(ParseAll(sc, G, nd.a, m.S, <<>>), LAMBDA v : V(TOTUPLE, <<V(TSOME, <<v[1]>>), v[2]>>))
           ELSE Map(Parse(sc, G, nd.a[2], m.S), LAMBDA v : V(TOTUPLE, <<V(TNONE, <<>>), v>>)))
    [] nd.t = "tokprefix" -> Map(ParseAll(sc, G, nd.a, S, <<>>), LAMBDA v : V(TOTUPLE, v))
    [] nd.t = "struct" -> Map(ParseAll(sc, G, nd.a, S, <<>>), LAMBDA v : V(TSTRUCT, v))
    \* a user's own type: the first part is not kept, the second is optional
    [] nd.t = "shy" -> Map(ParseAll(sc, G, nd.a, S, <<>>), LAMBDA v : V(TSTRUCT, <<v[2]>>))
    [] nd.t = "enum" ->
         Then(FirstVariant(sc, G, nd.vs, S, 1), LAMBDA x :
           Map(ParseAll(sc, G, nd.vs[x.v], x.S, <<>>), LAMBDA v : V(-10 - x.v, v)))

Maybe(sc, G, n, S) ==
  LET nd == G[n] IN
  CASE nd.t = "tok" ->
         LET f == Fetch(sc, S, 1) IN
         IF f.k = "err" THEN f ELSE OkA(Accepts(sc, f.v[1], nd.pats), f.S)
    [] nd.t \in {"opt", "vec", "sepseq", "optsepseq"} -> OkA(TRUE, S)
    [] nd.t \in {"box", "tuple", "neseq", "nesepseq", "neoptsepseq", "neseplist", "neoptseplist", "quoted", "shy"} ->
         Maybe(sc, G, nd.a[1], S)
    [] nd.t = "optprefix" -> MaybeAny(sc, G, nd.a, S)
    [] nd.t \in {"opttokprefix", "tokprefix"} ->
         Then(Maybe(sc, G, nd.a[1], S), LAMBDA m :
           IF m.v
           THEN LET x == Next1(sc, m.S) IN
                IF x.k = "err" THEN x   \* (a prefix that needs no token)
                ELSE LET r == Maybe(sc, G, nd.a[2], x.S) IN [r EXCEPT !.S = Unread1(@, x.v)]
           ELSE IF nd.t = "tokprefix" THEN m ELSE Maybe(sc, G, nd.a[2], m.S))
    [] nd.t \in {"struct", "enum"} ->
         IF nd.sw # <<>> THEN MaybeChain(sc, G, nd.sw, S, <<>>, TRUE)
         ELSE IF nd.t = "struct" THEN (IF nd.a = <<>> THEN OkA(TRUE, S) ELSE Maybe(sc, G, nd.a[1], S))
         ELSE IF nd.vs = <<>> THEN OkA(TRUE, S)
         ELSE MaybeAny(sc, G, [i \in 1..Len(nd.vs) |-> First(nd.vs[i])], S)

\* The tokens of a value in order, and its span: from the first to the last.
RECURSIVE Leaves(_)
\* A tag is followed by a count: drop both, keep the tokens.
Leaves(v) == IF v = <<>> THEN <<>>
             ELSE IF Head(v) > 0 THEN <<Head(v)>> \o Leaves(Tail(v))
             ELSE Leaves(SubSeq(v, 3, Len(v)))
SpanOf(sc, v) ==
  LET ls == Leaves(v) IN
  IF ls = <<>> THEN <<>>
  ELSE <<sc.toks[ls[1]].sp[1], sc.toks[ls[1]].sp[2], sc.toks[Last(ls)].sp[3], sc.toks[Last(ls)].sp[4]>>

\* Outcomes of parse and maybe. When a token does not fit, whether that token
\* is consumed is left open; the ones behind it are not.
DoG(sc, G, st, o) ==
  LET S == Str(st) IN
  IF o.op = "maybe" THEN
    LET m == Maybe(sc, G, o.g, S) IN
    {[st |-> On(st, m.S), ret |-> Ret(m.k, <<>>, m.e, m.at, m.k = "ok" /\ m.v), val |-> <<>>]}
  ELSE   \* parse; unwrap parses a token type and looks at the payload
    LET a == Parse(sc, G, o.g, S) IN
    {[st |-> On(st, T), ret |-> Ret(a.k, <<>>, a.e, a.at, FALSE), val |-> a.v] :
       T \in {a.S} \cup (IF a.at > 0 THEN {Next1(sc, a.S).S} ELSE {})}
============================================================================
