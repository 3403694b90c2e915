---------------------------- MODULE AlignGen ----------------------------
\* SessionGen for the alignment calculators; the constants are substituted in the configuration.
EXTENDS SessionGen, AlignTable
=============================================================================
