------------------------------- MODULE Spans -------------------------------
(* Spans, the counters they share, and tokens: what a history of operations *)
(* on them may be seen to do.                                               *)
EXTENDS Render

\* st = [sps |-> Seq([src |-> source, sp |-> <<line, column, line, column>>]),
\*       cnt |-> Seq(<<errors, warnings>>), one for each source, fts |-> Seq(its file),
\*       toks |-> Seq([k |-> kind, i |-> spelling of the kind, sp |-> span])]
SInit == [sps |-> <<>>, cnt |-> <<>>, fts |-> <<>>, toks |-> <<>>]
Adv(a, c) == IF c = 10 THEN <<a[1] + 1, 0>> ELSE <<a[1], a[2] + 1>>
Start(s) == SubSeq(s.sp, 1, 2)
End(s) == SubSeq(s.sp, 3, 4)
At(a) == a \o a

\* One operation: the next state and the answer. X: what is known of the sources, and the environment:
\* X.logger (BOOLEAN), X.files (number -> <<name, <<lines>> or <<>>>>), X.wd.
Ans(st, v) == [st |-> st, v |-> v]
Put(st, s) == [st EXCEPT !.sps = Append(@, s)]
Errors == {"error", "fatal", "rawerror", "rawfatal"}
Logged(X, st, s, o) ==
  LET raw == o.kind \in {"rawerror", "rawfatal", "rawwarning"}
      sev == IF o.kind \in Errors THEN "error" ELSE "warning"
      f == X.files[st.fts[s.src]]
      c == st.cnt[s.src]
      st2 == IF o.kind = "summary" THEN st ELSE IF sev = "error" THEN [st EXCEPT !.cnt[s.src][1] = @ + 1] ELSE [st EXCEPT !.cnt[s.src][2] = @ + 1]
      out == IF ~X.logger THEN <<>>
             ELSE IF o.kind = "summary" THEN Summary(c[1], c[2])
             ELSE IF raw THEN Raw(sev, o.msg) ELSE Full(sev, o.msg, f[1], f[2], X.wd, s.sp)
      err == IF o.kind \notin Errors THEN <<>>
             ELSE << [fatal |-> o.kind \in {"fatal", "rawfatal"},
                      msg |-> IF X.logger THEN <<>> ELSE IF raw THEN <<o.msg>> ELSE <<Place(f[1], s.sp) \o <<58, 32>> \o o.msg>>] >>
  IN Ans(st2, [printed |-> out, err |-> err])
Do(X, st, o) ==
  LET s == st.sps[o.i] t == st.sps[o.j] a == st.toks[o.i] b == st.toks[o.j] IN
  CASE o.op = "new" -> Ans([Put(st, [src |-> Len(st.cnt) + 1, sp |-> <<1, 0, 1, 0>>]) EXCEPT !.cnt = Append(@, <<0, 0>>), !.fts = Append(@, o.ft)], <<>>)
    [] o.op = "clone" -> Ans(Put(st, s), <<>>)
    [] o.op = "drop" -> Ans([st EXCEPT !.sps = SubSeq(@, 1, o.i - 1) \o SubSeq(@, o.i + 1, Len(@))], <<>>)
    [] o.op = "update" -> Ans([st EXCEPT !.sps[o.i].sp = At(Adv(Start(s), o.c))], <<>>)
    [] o.op = "intoup" -> Ans(Put(st, [s EXCEPT !.sp = At(Adv(Start(s), o.c))]), <<>>)
    [] o.op = "loc" -> Ans([st EXCEPT !.sps[o.i].sp = At(<<o.line, o.col>>)], <<>>)
    [] o.op = "end" -> Ans([st EXCEPT !.sps[o.i].sp = Start(s) \o End(t)], <<>>)
    [] o.op = "intoend" -> Ans(Put(st, [s EXCEPT !.sp = Start(s) \o End(t)]), <<>>)
    [] o.op = "same" -> Ans(st, s.sp[3] = t.sp[1])
    [] o.op = "eq" -> Ans(st, s = t)
    [] o.op = "disp" -> Ans(st, Digits(s.sp[1]) \o <<58>> \o Digits(s.sp[2]) \o <<45>> \o Digits(s.sp[3]) \o <<58>> \o Digits(s.sp[4]))
    [] o.op = "name" -> Ans(st, X.files[st.fts[s.src]][1])
    [] o.op = "log" -> Logged(X, st, s, o)
    \* locations beyond TLC's integers: given as texts, and shown up to the location
    [] o.op = "logbig" -> Ans([st EXCEPT !.cnt[s.src][1] = @ + 1],
         IF X.logger THEN Raw("error", o.msg) \o TheAt \o X.files[st.fts[s.src]][1] \o <<58>> \o o.line \o <<58>> \o o.col \o NL
         ELSE X.files[st.fts[s.src]][1] \o <<58>> \o o.line \o <<58>> \o o.col \o <<58, 32>> \o o.msg)
    [] o.op = "tok" -> Ans([st EXCEPT !.toks = Append(@, [k |-> o.k, i |-> o.w, sp |-> s])], <<>>)
    [] o.op = "tset" -> Ans([st EXCEPT !.toks[o.i].k = o.k, !.toks[o.i].i = o.w], <<>>)
    \* equal to one another, hashed alike (equal tokens), equal to the kind of the other, in both directions
    [] o.op = "teq" -> Ans(st, [eq |-> a.k = b.k, ne |-> a.k # b.k, kind |-> a.k = b.k, hash |-> a.k = b.k \/ o.ret.v.hash])
    \* hashed and found like its kind, displayed like its kind, plainly and with a width
    [] o.op = "tlike" -> Ans(st, [hash |-> TRUE, found |-> a.k = b.k, borrow |-> a.i, asref |-> a.i, text |-> a.i, pad |-> TRUE])
    \* the span of a token, and a span made from it
    [] o.op = "tspan" -> Ans(Put(st, a.sp), a.sp.sp)
    [] o.op = "tclone" -> Ans([st EXCEPT !.toks = Append(@, a)], <<>>)
\* Everything that can be looked at: locations, counters, and tokens.
View(st) == [sps |-> [i \in 1..Len(st.sps) |-> st.sps[i].sp \o st.cnt[st.sps[i].src]],
             toks |-> [i \in 1..Len(st.toks) |-> <<st.toks[i].i>> \o st.toks[i].sp.sp]]
============================================================================
