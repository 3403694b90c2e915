------------------------------ MODULE MixCheck ------------------------------
EXTENDS Mixing, ComposeTrace
MixCfgSeq == SetToSeq(MixCfgs)
=============================================================================
