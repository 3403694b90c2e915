---------------------------- MODULE NonLinBiasGen ----------------------------
EXTENDS NonLinBias, Json, IOUtils
Levels == IF IOEnv.FULL = "1" THEN Level ELSE {"below", "in", "above"}
\* all combinations of levels, plus each limit on its own
Reqs == [amp : AmpMode, lev : [DOMAIN Inputs -> Levels]] \cup
        {[amp |-> m, lev |-> [i \in DOMAIN Inputs |-> IF i = j THEN e ELSE "in"]] : m \in AmpMode, j \in DOMAIN Inputs, e \in {"lo", "hi"}}
Init == \E r \in Reqs : req = r /\ emu = Given(r)
Next == FALSE /\ UNCHANGED nvars
Spec == Init /\ [][Next]_nvars
Emit == PrintT("PLAN" \o ToJson(req))
=============================================================================
