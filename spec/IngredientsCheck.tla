-------------------------- MODULE IngredientsCheck --------------------------
EXTENDS Ingredients, ComposeTrace
IngCfgSeq == SetToSeq(IngCfgs)
=============================================================================
