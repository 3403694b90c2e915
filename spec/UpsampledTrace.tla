---------------------------- MODULE UpsampledTrace ----------------------------
\* SessionTrace for UpsampledSpectra; the constants are substituted in the configuration.
EXTENDS SessionTrace, UpsampledTable
=============================================================================
