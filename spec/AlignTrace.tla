---------------------------- MODULE AlignTrace ----------------------------
\* SessionTrace for the alignment calculators; the constants are substituted in the configuration.
EXTENDS SessionTrace, AlignTable
=============================================================================
