------------------------------ MODULE LexCover ------------------------------
(* The states of lexers: a shortest text that leads to each of them. The    *)
(* texts, extended by every kind of symbol, are replayed on the real lexers.*)
EXTENDS Regex, Json, IOUtils, TLC

LR == ndJsonDeserialize(IOEnv.LEXERS)
Trees == [i \in 1..Len(LR) |-> Tree(LR[i].nodes)]

VARIABLES lx, v, w
Init == /\ lx \in 1..Len(LR)
        /\ v = VInit(Trees[lx], LR[lx].rules)
        /\ w = <<>>
Next == \E i \in 1..Len(LR[lx].reps) :
          LET c == LR[lx].reps[i]
              x == VStep(Trees[lx], v, c) IN
          /\ VLive(x)
          /\ v' = x /\ w' = Append(w, c) /\ UNCHANGED lx
Spec == Init /\ [][Next]_<<lx, v, w>>
View == <<lx, v>>
Emit == PrintT("SCN " \o ToJson([lx |-> lx, w |-> w]))
============================================================================
