---------------------------- MODULE SpectraGen ----------------------------
\* SessionGen for Spectra; the constants are substituted in the configuration.
EXTENDS SessionGen, SpectraTable
=============================================================================
