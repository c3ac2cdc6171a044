---------------------------- MODULE TraceTokens ----------------------------
(* Are the recorded histories of real token streams, parsers and lookaheads *)
(* histories of TokenStream and Grammar?                                    *)
EXTENDS Grammar, Json, IOUtils, TLC

CONSTANT TEXT     \* compare the texts of error messages, too

TR == ndJsonDeserialize(IOEnv.TRACE)
GR == ndJsonDeserialize(IOEnv.GRAMMAR)[1].nodes

Pats == [i \in 1..Len(GR) |-> GR[i].pats]

VARIABLES tid, l, sts, exp
vars == <<tid, l, sts, exp>>

Sc == TR[tid].sc
Ops == TR[tid].ops

\* The message of a mismatch: what was expected and which token was found.
Wanted(o, x) == IF o.op = "expect" THEN Sc.toks[o.i].disp ELSE GR[x.val[1]].want
Message(o, x) == "expected " \o Wanted(o, x) \o ", found " \o Sc.toks[x.ret.at].disp

GOps == {"parse", "maybe", "unwrap"}
\* What unwrapping into the types of the kinds 0, 1 and 2 gives; -1: it panics.
Payload(t) == [i \in 1..3 |-> IF t.k = i - 1 THEN t.v ELSE -1]

\* An answer carries: k, v (tokens delivered), e (tokenizer error returned, 0 if
\* the error is not one of the script's), loc (location in the message), msg, b,
\* asks (calls of the tokenizer), errs (errors counted), val and span.
Matches(st, x, o) ==
  LET r == o.ret IN
  /\ r.k = x.ret.k
  /\ r.e = x.ret.e
  /\ r.b = x.ret.b
  /\ r.asks = x.st.p - st.p
  /\ (o.op \notin GOps => r.v = x.ret.v)
  /\ (o.op = "unwrap" /\ x.ret.k = "ok" => /\ r.v = x.val
                                          /\ r.un = Payload(Sc.toks[x.val[1]]) \o Payload(Sc.toks[x.val[1]]))
  /\ (x.ret.at > 0 => /\ r.loc = SubSeq(Sc.toks[x.ret.at].sp, 1, 2)
                      /\ (TEXT => r.msg = Message(o, x)))
  /\ (o.op = "parse" /\ x.ret.k = "ok" =>
        /\ r.val = x.val
        /\ (r.span # <<-1>> => r.span = SpanOf(Sc, x.val)))   \* <<-1>>: the type has no span

Outs(st, o) == IF o.op \in GOps THEN DoG(Sc, GR, st, o)
               ELSE {[st |-> y.st, ret |-> y.ret, val |-> <<>>] : y \in DoT(Sc, Pats, st, o)}

Init == /\ tid \in 1..Len(TR)
        /\ l = 0
        /\ sts = {TSInit}
        /\ exp = {}
Next == /\ l < Len(Ops)
        /\ sts # {}
        /\ LET o == Ops[l + 1] IN
           /\ sts' = UNION {{x.st : x \in {y \in Outs(st, o) : Matches(st, y, o)}} : st \in sts}
           /\ exp' = UNION {Outs(st, o) : st \in sts}
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l, sts>>

Conforms == sts # {}
============================================================================
