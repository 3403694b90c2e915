---------------------------- MODULE BiasFormCheck ----------------------------
EXTENDS BiasForm, ComposeTrace
BfCfgSeq == SetToSeq(BfCfgs)
=============================================================================
