---------------------------- MODULE UpsampledGen ----------------------------
\* SessionGen for UpsampledSpectra; the constants are substituted in the configuration.
EXTENDS SessionGen, UpsampledTable
=============================================================================
