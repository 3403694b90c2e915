----------------------------- MODULE NonLinBias -----------------------------
(***************************************************************************)
(* What the non-linear bias calculator hands to its emulator.              *)
(*                                                                         *)
(* Each of the six emulator inputs has a supported range; a requested      *)
(* value is below, at the lower limit, inside, at the upper limit or above *)
(* it.  The emulator has to receive the value itself when it is supported  *)
(* and the nearest limit otherwise.  The amplitude requested is the given  *)
(* primordial amplitude, or else the one that reproduces the given sigma8  *)
(* in the cosmology that the emulator is given.                            *)
(*                                                                         *)
(* The calculator is also a history-free object: a request replaces the    *)
(* earlier one completely.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Inputs == << "ombh2", "omch2", "Omde", "lnA", "n_s", "w0" >>
Level == {"below", "lo", "in", "hi", "above"}
AmpMode == {"A_s", "sigma8", "both"}       \* which amplitude is given; a given A_s takes precedence

\* what the emulator gets for a request at a level
Clamp(l) == CASE l = "below" -> "lo" [] l = "above" -> "hi" [] OTHER -> "same"
Symmetric(x, y) == x = y

VARIABLES req, emu          \* the current request [amp, lev] and the emulator's cosmology
nvars == <<req, emu>>
Given(r) == [i \in DOMAIN Inputs |-> Clamp(r.lev[i])]
Request(r) == req' = r /\ emu' = Given(r)

\* supported requests are passed on unchanged; nothing but a limit or the request itself is ever passed on
InRangeUntouched == \A i \in DOMAIN Inputs : req.lev[i] \in {"lo", "in", "hi"} => emu[i] = "same"
OutsideClamped == \A i \in DOMAIN Inputs : req.lev[i] \in {"below", "above"} => emu[i] # "same"
=============================================================================
