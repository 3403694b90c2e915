---------------------------- MODULE SpectraTrace ----------------------------
\* SessionTrace for Spectra; the constants are substituted in the configuration.
EXTENDS SessionTrace, SpectraTable
=============================================================================
