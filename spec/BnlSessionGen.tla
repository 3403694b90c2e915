---------------------------- MODULE BnlSessionGen ----------------------------
\* SessionGen for NonLinearBias; the constants are substituted in the configuration.
EXTENDS SessionGen, BnlTable
=============================================================================
