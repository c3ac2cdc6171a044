------------------------------ MODULE EndToEnd ------------------------------
(* From characters to syntax trees: a derived lexer on a character stream,  *)
(* behind a token buffer, behind parsers. What the parsers see is what the  *)
(* lexer finds; how far the lexer has come is how many tokens were asked.   *)
EXTENDS Lexer

G == INSTANCE Grammar

\* A lexer is a Lexer!LX whose variants also carry the kind of their token (k)
\* as the grammar knows it: 0 numbers, 1 symbols, 2 words ("w" and a number),
\* 3 plus signs, 4 the end of file.
KindOf(x) == x.k
ValueOf(x, val) ==
  CASE x.k \in {0, 1} -> val[1]
    [] x.k = 2 -> DecVal(Tail(val))
    [] OTHER -> 0

\* The answers of the lexer from a place on, up to the first one that does not
\* take anything: it comes again and again.
Stays(a, b) == a.p = b.p /\ a.pushed = b.pushed
RECURSIVE Answers(_, _, _)
Answers(LX, txt, cs) ==
  LET x == CHOOSE x \in Token(LX, txt, cs) : TRUE IN
  IF Stays(cs, x.st) THEN <<x>> ELSE <<x>> \o Answers(LX, txt, x.st)

\* The tokenizer's script from a place on: what TokenStream calls a script
\* (tokens are indices into toks, errors into errs), and where the lexer stands
\* behind every answer.
Script(LX, txt, cs, toks, errs) ==
  LET as == TLCEval(Answers(LX, txt, cs))
      isT == [i \in 1..Len(as) |-> as[i].k = "tok"]
      nT == [i \in 1..Len(as) |-> Cardinality({j \in 1..i : isT[j]})]
      items == [i \in 1..Len(as) |-> IF isT[i] THEN Len(toks) + nT[i] ELSE -(Len(errs) + i - nT[i])]
      newT == [j \in 1..nT[Len(as)] |->
                 LET a == as[CHOOSE i \in 1..Len(as) : isT[i] /\ nT[i] = j]
                     x == LX.vars[a.var] IN
                 [k |-> KindOf(x), v |-> ValueOf(x, a.val), sp |-> a.sp]]
      newE == [j \in 1..(Len(as) - nT[Len(as)]) |->
                 LET a == as[CHOOSE i \in 1..Len(as) : ~isT[i] /\ i - nT[i] = j] IN
                 [msg |-> a.msg, loc |-> a.loc, k |-> a.k]]
  IN TLCEval([items |-> Front(items), eof |-> Last(items), toks |-> toks \o newT, errs |-> errs \o newE,
              base |-> cs, sts |-> [i \in 1..Len(as) |-> as[i].st]])

\* The state: [w |-> the script, q, p, hist |-> the stream over it (p counts
\* from w.base), en |-> errors reported so far]
EInit(LX, txt, toks) == [w |-> Script(LX, txt, CSInit, toks, <<>>), q |-> <<>>, p |-> 0, hist |-> <<>>, en |-> 0]
Here(st) == IF st.p = 0 THEN st.w.base ELSE st.w.sts[IF st.p < Len(st.w.sts) THEN st.p ELSE Len(st.w.sts)]
Faults(w, p, p2) == Cardinality({i \in p + 1..p2 : G!Item(w, i) < 0})

Strm(st) == [q |-> st.q, p |-> st.p, hist |-> st.hist]
\* Every error of the lexer and every mismatch is reported once, when it happens.
Behind(st, x) == [st EXCEPT !.q = x.st.q, !.p = x.st.p, !.hist = x.st.hist,
                            !.en = @ + Faults(st.w, st.p, x.st.p) + IF x.ret.at > 0 THEN 1 ELSE 0]
NoRet == G!Ret("ok", <<>>, 0, 0, FALSE)

\* Operations of the stream and of parsers; chr: an operation on the characters
\* below the lexer; rewrap, relex: a new buffer around the lexer.
DoE(LX, GR, pats, txt, st, o) ==
  CASE o.op \in {"parse", "maybe", "unwrap"} ->
         {[st |-> Behind(st, x), ret |-> x.ret, val |-> x.val] : x \in G!DoG(st.w, GR, Strm(st), o)}
    [] o.op = "char" ->
         {[st |-> [w |-> Script(LX, txt, x.st, st.w.toks, st.w.errs), q |-> st.q, p |-> 0, hist |-> st.hist, en |-> st.en],
           ret |-> NoRet, val |-> x.ret] : x \in Do(txt, Here(st), o.do, FALSE)}
    [] o.op \in {"rewrap", "relex"} -> {[st |-> [st EXCEPT !.q = <<>>], ret |-> NoRet, val |-> <<>>]}
    [] OTHER -> {[st |-> Behind(st, x), ret |-> x.ret, val |-> <<>>] : x \in G!DoT(st.w, pats, Strm(st), o)}
============================================================================
