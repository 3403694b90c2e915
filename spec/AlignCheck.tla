----------------------------- MODULE AlignCheck -----------------------------
EXTENDS Alignment, ComposeTrace
AlCfgSeq == SetToSeq(AlCfgs)
=============================================================================
