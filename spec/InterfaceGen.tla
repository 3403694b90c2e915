---------------------------- MODULE InterfaceGen ----------------------------
\* random configurations, one field per step
EXTENDS Interface, Json
VARIABLES c, i
vars == <<c, i>>
Init == c = [f \in {} |-> ""] /\ i = 1
\* mostly something is asked for and unusual settings stay in the minority, so that every run evaluates something
Pick(f) == RandomElement(IChoices(f))
Next == /\ i <= Len(IFields) /\ i' = i + 1
        /\ \E x \in {Pick(IFields[i])} : c' = (IFields[i] :> CASE x = "absent2" -> "absent" [] x = "direct2" -> "direct" [] OTHER -> x) @@ c
Spec == Init /\ [][Next]_vars
Done == i = Len(IFields) + 1
SourcesAndOutputs == (Done /\ ISupported(c)) => OneEach(c) /\ OnlyAsked(c)
Emit == (Done /\ ISupported(c)) => PrintT("PLAN" \o ToJson([cfg |-> c, src |-> Sources(c), out |-> Outputs(c), sample |-> AlignSample(c)]))
=============================================================================
