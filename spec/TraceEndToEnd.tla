--------------------------- MODULE TraceEndToEnd ---------------------------
(* Are the recorded histories of real lexers, token buffers and parsers     *)
(* those of EndToEnd?                                                       *)
EXTENDS EndToEnd, Names, Json, IOUtils

TR == ndJsonDeserialize(IOEnv.TRACE)
GR == ndJsonDeserialize(IOEnv.GRAMMAR)[1].nodes
LR == ndJsonDeserialize(IOEnv.LEXERS)[1]
\* Symbols as strings, for messages.
CH == LR.chr

Pats == [i \in 1..Len(GR) |-> GR[i].pats]
LX == TLCEval([T |-> Tree(LR.nodes), rules |-> LR.rules,
       vars |-> [i \in 1..Len(LR.vars) |-> [kind |-> LR.vars[i].kind, conv |-> LR.vars[i].conv, k |-> LR.vars[i].k, called |-> Called(LR.vars[i])]]])
Bytes(t) == SelectSeq(t.src, LAMBDA b : b < 256)
TextOf(t) == IF LR.mode = "u8" THEN [cs |-> Bytes(t), bad |-> FALSE] ELSE Decode(Bytes(t))

VARIABLES tid, l, sts, exp
vars == <<tid, l, sts, exp>>
Ops == TR[tid].ops
Leaves == TR[tid].leaves

Disp(t) == CASE t.k = 0 -> "number `" \o ToString(t.v) \o "`"
             [] t.k = 1 -> "symbol `" \o CH[ToString(t.v)] \o "`"
             [] t.k = 2 -> "word `w" \o ToString(t.v) \o "`"
             [] t.k = 3 -> "plus sign"
             [] t.k = 4 -> "end of file"

\* Token j of the script is token i that was seen.
SameTok(w, j, i) == i > 0 /\ LET t == w.toks[j] x == Leaves[i] IN
                             t.k = x.k /\ t.v = x.v /\ t.sp = x.sp /\ x.disp = Disp(t)
SameToks(w, js, is) == Len(js) = Len(is) /\ \A n \in 1..Len(js) : IF js[n] < 0 THEN is[n] = 0 ELSE SameTok(w, js[n], is[n])
\* In a value, a tag (negative) is followed by a count.
SameVal(w, vs, rs) ==
  /\ Len(vs) = Len(rs)
  /\ \A n \in 1..Len(vs) : IF vs[n] < 0 \/ (n > 1 /\ vs[n - 1] < 0) THEN vs[n] = rs[n] ELSE SameTok(w, vs[n], rs[n])
Payload(t) == [i \in 1..3 |-> IF t.k = i - 1 THEN t.v ELSE -1]

Message(w, x, o) == "expected " \o (IF o.op = "expect" THEN Disp(w.toks[o.i]) ELSE GR[x.val[1]].want) \o ", found " \o Disp(w.toks[x.ret.at])
Matches(x, o) ==
  LET r == o.ret w == x.st.w IN
  /\ r.k = x.ret.k
  /\ r.pos = At(Here(x.st).loc)
  /\ r.en = x.st.en
  /\ r.b = x.ret.b
  /\ (o.op \notin {"parse", "maybe", "unwrap", "char"} => SameToks(w, x.ret.v, r.v))
  /\ (o.op = "char" => r.k = x.val.k /\ r.c = x.val.c /\ r.s = x.val.s)
  /\ (x.ret.e > 0 /\ r.k = "err" => r.msg = w.errs[x.ret.e].msg /\ r.loc = w.errs[x.ret.e].loc)
  /\ (x.ret.at > 0 => r.loc = SubSeq(w.toks[x.ret.at].sp, 1, 2) /\ r.msg = Message(w, x, o))
  /\ (o.op = "unwrap" /\ r.k = "ok" => SameVal(w, x.val, r.v) /\ r.un = Payload(w.toks[x.val[1]]) \o Payload(w.toks[x.val[1]]))
  /\ (o.op = "parse" /\ r.k = "ok" => SameVal(w, x.val, r.val) /\ (r.span # <<-1>> => r.span = G!SpanOf(w, x.val)))

Outs(st, o) == DoE(LX, GR, Pats, TextOf(TR[tid]), st, o)
\* The first step reads the text.
Init == tid \in 1..Len(TR) /\ l = -1 /\ sts = {} /\ exp = {}
Load == /\ l = -1
        /\ sts' = {EInit(LX, TextOf(TR[tid]), TR[tid].toks)}
        /\ exp' = {}
Step == /\ l >= 0
        /\ l < Len(Ops)
        /\ sts # {}
        /\ LET o == Ops[l + 1]
               outs == UNION {Outs(st, o) : st \in sts} IN
           /\ sts' = {x.st : x \in {y \in outs : Matches(y, o)}}
           /\ exp' = outs
Next == (Load \/ Step) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l, sts>>
Conforms == l = -1 \/ sts # {}
============================================================================
