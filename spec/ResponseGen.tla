---------------------------- MODULE ResponseGen ----------------------------
\* All operation sequences of length DEPTH, dealt out to the modes; every SHARE-th one per mode.
EXTENDS Response, Json, IOUtils
ToNum(str) == CHOOSE n \in 0..20000 : ToString(n) = str
Depth == ToNum(IOEnv.DEPTH)
Share == ToNum(IOEnv.SHARE)
Seed == ToNum(IOEnv.SEED)
ModeSeq == SetToSeq(Modes)
VARIABLES hist, start, code
vars == <<resp, pnl, out, hist, start, code>>
OpSeq == <<"toggle", "x", "y", "mm", "gg", "gm", "mi", "ii", "gi">>
Do(op) == CASE op = "toggle" -> Toggle [] op \in {"x", "y"} -> Supply(op) [] OTHER -> Read(op)
\* useful sequences: no update right before the end, no two equal operations in a row
Fine(n) == LET last == IF hist = <<>> THEN "" ELSE hist[Len(hist)] IN
             /\ OpSeq[n] # last
             /\ Len(hist) = Depth - 1 => n > 3
             /\ n <= 3 => last \notin {"toggle", "x", "y"} \/ n = 1
Init == /\ RInit /\ hist = <<>> /\ start = <<resp, pnl>> /\ code = (IF resp THEN 3 ELSE 0) + (CASE pnl = "none" -> 0 [] pnl = "x" -> 1 [] OTHER -> 2)
Next == /\ Len(hist) < Depth
        /\ \E n \in DOMAIN OpSeq : Fine(n) /\ Do(OpSeq[n]) /\ hist' = Append(hist, OpSeq[n]) /\ code' = (code * 9 + n) % 9973
        /\ UNCHANGED start
Spec == Init /\ [][Next]_vars
ModesOf == {m \in DOMAIN ModeSeq : (code + m * 71 + Seed * 13) % Share = 0}
Emit == Len(hist) = Depth => \A m \in ModesOf : PrintT("PLAN" \o ToJson([mode |-> ModeSeq[m], start |-> start, ops |-> hist]))
=============================================================================
