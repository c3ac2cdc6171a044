---------------------------- MODULE TraceReader ----------------------------
(* Are the recorded histories of the real readers histories of CharStream? *)
EXTENDS CharStream, Utf8, Json, IOUtils, TLC

TR == ndJsonDeserialize(IOEnv.TRACE)

\* The source as bytes, and the text it stands for.
TextOf(t) ==
  IF t.kind = "byte"
  THEN [cs |-> LET bs == SelectSeq(t.src, LAMBDA b : b < 256 \/ b = 258)
               IN [i \in 1..Len(bs) |-> IF bs[i] = 258 THEN -1 ELSE bs[i]],
        bad |-> FALSE]
  ELSE Decode(SelectSeq(t.src, LAMBDA b : b < 256))
Texts == [i \in 1..Len(TR) |-> TextOf(TR[i])]

VARIABLES tid, l, sts, exp
vars == <<tid, l, sts, exp>>

Ops == TR[tid].ops
Seen(ret) == [k |-> ret.k, c |-> ret.c, s |-> ret.s]
Matches(x, ret) == x.ret = Seen(ret) /\ At(x.st.loc) = ret.sp /\ x.st.en = ret.en

Init == /\ tid \in 1..Len(TR)
        /\ l = 0
        /\ sts = {CSInit}
        /\ exp = {}
Next == /\ l < Len(Ops)
        /\ sts # {}
        /\ LET o == Ops[l + 1]
               outs == UNION {Do(Texts[tid], st, o, o.ret.io > 0) : st \in sts}
           IN /\ sts' = {x.st : x \in {y \in outs : Matches(y, o.ret)}}
              /\ exp' = outs
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l, sts>>

Conforms == sts # {}
============================================================================
