---------------------------- MODULE TraceMatch ----------------------------
(* Are the recorded histories of real matchers those of the residuals?     *)
EXTENDS Regex, Utf8, Json, IOUtils, TLC

TR == ndJsonDeserialize(IOEnv.TRACE)
Trees == [i \in 1..Len(TR) |-> Tree(TR[i].nodes)]

VARIABLES tid, l, v, hist, exp, ok
View == <<tid, l, v, ok>>
tr == TR[tid]
T == Trees[tid]

Init == /\ tid \in 1..Len(TR) /\ l = 0 /\ exp = <<>>
        /\ ok = (<<tr.k, tr.tag>> \in Outcomes(T, tr.rules, tr.mode) /\ tr.says \in Says(tr.rules, tr.mode, tr.k, tr.tag))
        /\ v = IF tr.k = "ok" THEN VInit(T, tr.rules) ELSE <<>>
        /\ hist = <<v>>   \* the residuals behind every state the matcher was in

Bytes(s) == FoldLeft(LAMBDA a, c : a \o Encode(c), <<>>, s)

Next == /\ ok /\ l < Len(tr.ops)
        /\ LET o == tr.ops[l + 1] IN
             /\ IF o.op = "acc" THEN
                  LET w == VStep(T, v, o.c) IN
                  IF VLive(w) THEN exp' = <<1>> /\ v' = w ELSE exp' = <<0>> /\ v' = v
                ELSE IF o.op = "reset" THEN exp' = <<>> /\ v' = VInit(T, tr.rules)
                ELSE /\ v' = v
                     /\ exp' = CASE o.op = "final" -> VTag(T, tr.rules, v)
                                 [] o.op = "sfinal" -> VTag(T, tr.rules, hist[o.i + 1])
                                 [] o.op = "match" -> VTag(T, tr.rules, VRun(T, VInit(T, tr.rules), o.s))
                                 [] o.op = "smatch" -> VTag(T, tr.rules, VRun(T, VInit(T, tr.rules),
                                                         IF tr.mode = "char" THEN o.u ELSE Bytes(o.u)))
             /\ hist' = IF o.op \in {"acc", "reset"} THEN Append(hist, v') ELSE hist
             /\ ok' = (exp' = o.ret)
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, v, hist, exp, ok>>
Conforms == ok
============================================================================
