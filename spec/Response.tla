------------------------------ MODULE Response ------------------------------
(***************************************************************************)
(* The response option as a state machine.  An object in a fixed mode has  *)
(* the response option on or off; it can be toggled, the supplied          *)
(* non-linear power can be exchanged, the object can be cloned, and the    *)
(* six spectra can be read, in any order.  What a read returns depends on  *)
(* the current options alone:                                              *)
(*    off:  the halo-model value H(spectrum, part)                         *)
(*    on:   mm:     total = non-linear power P, parts zero                 *)
(*          others: H(spectrum, part) * P / H(mm, total); bias unchanged   *)
(* H itself depends on the power P in the effective-power mode.            *)
(* Values are symbolic here: <<"H", s, p, P>>, <<"HR", s, p, P>>,          *)
(* <<"P", power>>, <<"zero">>, <<"none">>.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

Spectra == {"mm", "gg", "gm", "mi", "ii", "gi"}
Parts == {"oneh", "twoh", "tot", "bias"}
Modes == {<<a, b>> \in {"None", "bnl", "hmcode", "fortuna"} \X {"None", "mead2020", "mead2020_feedback", "fit"} :
             a = "hmcode" => b \in {"mead2020", "mead2020_feedback"}}
Powers == {"none", "x", "y"}      \* supplied non-linear power ("none": computed internally)

VARIABLES resp, pnl, out          \* out: last observation
rvars == <<resp, pnl, out>>

HasBias(s) == s \in {"gg", "gm"}
Value(s, p, r, w) ==
   CASE p = "bias" -> IF HasBias(s) THEN <<"H", s, "bias", w>> ELSE <<"none">>
     [] ~r -> <<"H", s, p, w>>
     [] s = "mm" -> IF p = "tot" THEN <<"P", w>> ELSE <<"zero">>
     [] OTHER -> <<"HR", s, p, w>>

RInit == resp \in BOOLEAN /\ pnl \in Powers /\ out = <<>>
Toggle == resp' = ~resp /\ out' = <<>> /\ UNCHANGED pnl
Supply(w) == pnl' = w /\ out' = <<>> /\ UNCHANGED resp
Read(s) == out' = <<s, [p \in Parts |-> Value(s, p, resp, pnl)]>> /\ UNCHANGED <<resp, pnl>>
RNext == Toggle \/ (\E w \in Powers \ {"none"} : Supply(w)) \/ \E s \in Spectra : Read(s)
RSpec == RInit /\ [][RNext]_rvars

\* properties of the machine
MatterExact == (out # <<>> /\ resp /\ out[1] = "mm") => out[2].tot = <<"P", pnl>>
BiasUnchanged == (out # <<>> /\ HasBias(out[1])) => out[2].bias = <<"H", out[1], "bias", pnl>>
SameRatio == (out # <<>> /\ resp /\ out[1] # "mm") => \A p \in {"oneh", "twoh", "tot"} : out[2][p] = <<"HR", out[1], p, pnl>>
OffIsPlain == (out # <<>> /\ ~resp) => \A p \in Parts : out[2][p] \in {<<"H", out[1], p, pnl>>, <<"none">>}
=============================================================================
