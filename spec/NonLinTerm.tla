----------------------------- MODULE NonLinTerm -----------------------------
(***************************************************************************)
(* The non-linear halo bias as a correction that enters the two-halo terms *)
(* linearly.  An object in the non-linear bias mode has a correction:      *)
(* supplied (a combination i*B1 + j*B2 of two arrays) or computed from the *)
(* emulator for the current cosmology.  It can be supplied anew, be asked  *)
(* to compute the correction, and the cosmology can be changed, in any     *)
(* order, with reads of the six spectra in between.                        *)
(*                                                                         *)
(* Values are symbolic:                                                    *)
(*   <<"one", s, cosmo>>          one-halo term, independent of it         *)
(*   <<"aff", s, part, cosmo, i, j>>   U + i*D1 + j*D2 with U the undamped *)
(*                                two-halo term (or total) of the mode     *)
(*                                without correction, D the change due to  *)
(*                                one unit of B1 resp. B2                  *)
(*   <<"emu", s, part, cosmo>>    the value with the emulator's correction *)
(*                                for that cosmology supplied explicitly   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Spectra == {"mm", "gg", "gm", "mi", "ii", "gi"}
Coef == -1..2
Cosmo == {"a", "b"}

VARIABLES src, ci, cj, cos, out
nvars == <<src, ci, cj, cos, out>>

Value(s, p, ss, i, j, c) ==
   CASE p = "oneh" -> <<"one", s, c>>
     [] ss = "sup" -> <<"aff", s, p, c, i, j>>
     [] OTHER -> <<"emu", s, p, c>>
NInit == src \in {"sup", "emu"} /\ ci = 0 /\ cj = 0 /\ cos \in Cosmo /\ out = <<>>
Supply(i, j) == src' = "sup" /\ ci' = i /\ cj' = j /\ out' = <<>> /\ UNCHANGED cos
Compute == src' = "emu" /\ ci' = 0 /\ cj' = 0 /\ out' = <<>> /\ UNCHANGED cos
SetCosmo(c) == cos' = c /\ out' = <<>> /\ UNCHANGED <<src, ci, cj>>
Read(s) == out' = <<s, [p \in {"oneh", "twoh", "tot"} |-> Value(s, p, src, ci, cj, cos)]>> /\ UNCHANGED <<src, ci, cj, cos>>

\* a vanishing correction leaves the undamped term, whatever was supplied before
ZeroIsUndamped == (out # <<>> /\ src = "sup" /\ ci = 0 /\ cj = 0) => out[2].twoh = <<"aff", out[1], "twoh", cos, 0, 0>>
OneHaloFree == out # <<>> => out[2].oneh = <<"one", out[1], cos>>
=============================================================================
