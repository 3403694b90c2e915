------------------------------ MODULE HodCheck ------------------------------
EXTENDS Hod, ComposeTrace
Want == IOEnv.WANT
HodSel == {x \in HodCfgs : IF Want = "C12" THEN x.via = "class" /\ x.src = "direct" /\ x.out = "F"
                           ELSE x.via = "spectra" \/ x.src # "direct" \/ x.out = "T" \/ x.model = "Cacciato"}
HodCfgSeq == SetToSeq(HodSel)
=============================================================================
