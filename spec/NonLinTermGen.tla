--------------------------- MODULE NonLinTermGen ---------------------------
EXTENDS NonLinTerm, Json, IOUtils
ToNum(str) == CHOOSE n \in 0..20000 : ToString(n) = str
Depth == ToNum(IOEnv.DEPTH)
VARIABLES hist, start, done
vars == <<src, ci, cj, cos, out, hist, start, done>>
Ops == {<<"supply", i, j>> : i \in Coef, j \in Coef} \cup {<<"compute">>} \cup {<<"cosmo", c>> : c \in Cosmo} \cup {<<"read", s>> : s \in Spectra}
Do(o) == CASE o[1] = "supply" -> Supply(o[2], o[3]) [] o[1] = "compute" -> Compute [] o[1] = "cosmo" -> SetCosmo(o[2]) [] OTHER -> Read(o[2])
Init == NInit /\ hist = <<>> /\ start = <<src, cos>> /\ done = FALSE
\* updates and reads alternate, with a few double updates
Next == \/ /\ Len(hist) < Depth /\ UNCHANGED <<start, done>>
           /\ \E o \in (IF Len(hist) % 3 = 2 \/ Len(hist) = Depth - 1 THEN {<<"read", s>> : s \in Spectra} ELSE Ops) :
                 Do(o) /\ hist' = Append(hist, o)
        \/ Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<src, ci, cj, cos, out, hist, start>>
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("PLAN" \o ToJson([start |-> start, ops |-> hist]))
=============================================================================
