--------------------------- MODULE EndToEndModel ---------------------------
(* EndToEnd on its own: a small lexer and a small grammar, every short text *)
(* and every short history of operations of all three layers.               *)
EXTENDS EndToEnd, FiniteSets, TLC

CONSTANTS TEXTLEN, HISTORY

\* 1+ is a number, a+ a plus sign (a alone is not a token), + a symbol, blanks
\* are skipped; ? starts nothing.
N(t, r, k, mn, mx) == [t |-> t, r |-> r, k |-> k, min |-> mn, max |-> mx]
A(c) == N("cls", << <<c, c>> >>, <<>>, 0, 0)
Nodes == << A(49), N("rep", <<>>, <<1>>, 1, -1), A(97), A(43), N("cat", <<>>, <<3, 4>>, 0, 0), A(32), N("rep", <<>>, <<6>>, 1, -1) >>
Var(kind, conv, k) == [kind |-> kind, conv |-> conv, k |-> k, called |-> "x"]
LX == TLCEval([T |-> Tree(Nodes), rules |-> << [root |-> 2, tag |-> 1], [root |-> 5, tag |-> 2], [root |-> 4, tag |-> 3], [root |-> 7, tag |-> 4] >>,
       vars |-> << Var("regex", "u8", 0), Var("regex", "unit", 3), Var("regex", "char", 1), Var("skip", "unit", 9), Var("eof", "unit", 4) >>])

Node(t, a, k) == [t |-> t, a |-> a, pats |-> IF k < 0 THEN <<>> ELSE <<[k |-> k, lo |-> 0, hi |-> 999, m |-> 1, r |-> 0]>>, sw |-> <<>>, vs |-> <<>>, want |-> ""]
\* 5: numbers with plus signs in between, 6: numbers, 7: a whole text of them, 8: an optional symbol in front of a number
GR == << Node("tok", <<>>, 0), Node("tok", <<>>, 3), Node("tok", <<>>, 1), Node("tok", <<>>, 4),
         Node("neseplist", <<1, 2>>, -1), Node("vec", <<1>>, -1), Node("tuple", <<6, 4>>, -1), Node("opttokprefix", <<3, 1>>, -1) >>
Pats == [i \in 1..Len(GR) |-> GR[i].pats]

G_(x) == [op |-> "parse", g |-> x]
Ops == {[op |-> "next"], [op |-> "unread"], [op |-> "peek2", n |-> 2], G_(5), G_(7), G_(8), [op |-> "maybe", g |-> 5], [op |-> "maybe", g |-> 8],
        [op |-> "char", do |-> [op |-> "nextc"]], [op |-> "rewrap"]}

VARIABLES text, done, st,
          base,       \* is the stream as it was made? (nothing went past the lexer)
          got, errs,  \* tokens that were delivered, errors that were reported
          gap         \* tokens were lost on the way (with a failed parse or the buffer)
vars == <<text, done, st, base, got, errs, gap>>
Txt == [cs |-> text, bad |-> FALSE]
Init == /\ text \in UNION {[1..k -> {49, 97, 43, 32, 63}] : k \in 0..TEXTLEN}
        /\ done = 0 /\ st = EInit(LX, Txt, <<>>) /\ base = TRUE /\ got = <<>> /\ errs = 0 /\ gap = FALSE
Step(o) ==
  \E x \in DoE(LX, GR, Pats, Txt, st, o) :
    /\ st' = x.st
    /\ base' = (base /\ o.op # "char")
    /\ errs' = errs + IF x.ret.k = "err" THEN 1 ELSE 0
    /\ got' = CASE o.op = "next" /\ x.ret.k = "ok" -> got \o x.ret.v
                [] o.op = "parse" /\ x.ret.k = "ok" -> got \o G!Leaves(x.val)
                [] o.op = "unread" -> SubSeq(got, 1, Len(got) - (Len(x.st.q) - Len(st.q)))
                [] OTHER -> got
    /\ gap' = (gap \/ (o.op = "parse" /\ x.ret.k = "err") \/ (o.op = "rewrap" /\ st.q # <<>>))
\* An unread token is the one that was delivered last.
Next == /\ done < HISTORY /\ done' = done + 1 /\ UNCHANGED text
        /\ \E o \in Ops : /\ (o.op = "unread" => st.hist # <<>> /\ got # <<>> /\ Last(st.hist) = Last(got))
                          /\ Step(o)
Spec == Init /\ [][Next]_vars

W == st.w
IsT(i) == W.items[i] > 0
Tok(i) == W.toks[W.items[i]]
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
\* Texts of tokens do not overlap and come in the order of the text.
Tiles == \A i, j \in 1..Len(W.items) : i < j /\ IsT(i) /\ IsT(j) => Before(SubSeq(Tok(i).sp, 3, 4), SubSeq(Tok(j).sp, 1, 2)) \/ Tok(j).k = 4
\* A token is what stands in the text at its place.
Faithful == \A i \in 1..Len(W.items) : IsT(i) =>
  LET t == SubSeq(text, Tok(i).sp[2], Tok(i).sp[4]) IN
  CASE Tok(i).k = 0 -> t # <<>> /\ (\A j \in 1..Len(t) : t[j] = 49) /\ Tok(i).v = DecVal(t)
    [] Tok(i).k = 3 -> t = <<97, 43>>
    [] Tok(i).k = 1 -> t = <<43>> /\ Tok(i).v = 43
    [] OTHER -> Tok(i).k = 4
\* The lexer keeps nothing but its place: from behind any token on it finds the rest of the script.
Plain(w, x) == IF x > 0 THEN w.toks[x] ELSE w.errs[-x]
Memoryless == \A k \in 1..Len(W.items) :
  LET w == Script(LX, Txt, W.sts[k], <<>>, <<>>) IN
  /\ Len(w.items) = Len(W.items) - k
  /\ \A i \in 1..Len(w.items) : Plain(w, w.items[i]) = Plain(W, W.items[k + i])
  /\ Plain(w, w.eof) = Plain(W, W.eof)
\* The position in the text is the end of the last token that was asked for.
Placed == st.p \in 1..Len(W.items) /\ IsT(st.p) => Here(st).loc = SubSeq(Tok(st.p).sp, 3, 4)
\* Tokens are delivered in order, each once, none left out unless lost or in error.
Ends(q) == SelectSeq(q, LAMBDA x : x > 0 /\ W.toks[x].k # 4)
Indices == Ends(W.items)
Delivered == base =>
  LET all == Ends(got) \o Ends(st.q) IN
  /\ \A i, j \in 1..Len(all) : i < j => all[i] < all[j]
  /\ ~gap => all = SubSeq(Indices, 1, Len(all))
\* One error is reported for every operation that answers with one.
Counted == st.en = errs
============================================================================
