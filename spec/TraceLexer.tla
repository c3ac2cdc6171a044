----------------------------- MODULE TraceLexer -----------------------------
(* Are the recorded histories of real derived lexers those of Lexer?         *)
EXTENDS Lexer, Names, Json, IOUtils, TLC

TR == ndJsonDeserialize(IOEnv.TRACE)
LR == ndJsonDeserialize(IOEnv.LEXERS)

Lx(x) == [T |-> Tree(x.nodes), rules |-> x.rules,
          vars |-> [i \in 1..Len(x.vars) |-> [kind |-> x.vars[i].kind, conv |-> x.vars[i].conv, called |-> Called(x.vars[i])]]]
LXS == [i \in 1..Len(LR) |-> Lx(LR[i])]

TextOf(t) ==
  IF t.mode = "u8" THEN [cs |-> SelectSeq(t.src, LAMBDA b : b < 256), bad |-> FALSE]
  ELSE Decode(SelectSeq(t.src, LAMBDA b : b < 256))
Texts == [i \in 1..Len(TR) |-> TextOf(TR[i])]

VARIABLES tid, l, sts, exp
vars == <<tid, l, sts, exp>>

Ops == TR[tid].ops

\* A token: k, var, val, sp, msg, loc; pos is where the input stands, en the errors counted.
SeenTok(x, r) ==
  /\ x.k = r.k /\ x.var = r.var /\ x.val = r.val /\ x.sp = r.sp
  /\ (r.k = "err" => x.msg = r.msg /\ x.loc = r.loc)
  /\ At(x.st.loc) = r.pos /\ x.st.en = r.en
SeenStep(x, r) == x.ret = [k |-> r.k, c |-> r.c, s |-> r.s] /\ At(x.st.loc) = r.sp /\ x.st.en = r.en

Outs(o, st) ==
  IF o.op = "tok" THEN IF o.ret.io > 0 THEN TokenFails(LXS[TR[tid].lx], Texts[tid], st)
                       ELSE Token(LXS[TR[tid].lx], Texts[tid], st)
  ELSE Do(Texts[tid], st, o, o.ret.io > 0)
Sees(o, x) == IF o.op = "tok" THEN SeenTok(x, o.ret) ELSE SeenStep(x, o.ret)

Init == /\ tid \in 1..Len(TR)
        /\ l = 0
        /\ sts = {CSInit}
        /\ exp = {}
Next == /\ l < Len(Ops)
        /\ sts # {}
        /\ LET o == Ops[l + 1]
               outs == UNION {Outs(o, st) : st \in sts} IN
           /\ sts' = {x.st : x \in {y \in outs : Sees(o, y)}}
           /\ exp' = outs
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l, sts>>
Conforms == sts # {}
============================================================================
