---------------------------- MODULE BnlSessionTrace ----------------------------
\* SessionTrace for NonLinearBias; the constants are substituted in the configuration.
EXTENDS SessionTrace, BnlTable
=============================================================================
