------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* Which option settings are supported, and what happens to an object when *)
(* an unsupported one is tried.                                            *)
(*                                                                         *)
(* An object of kind S (Spectra), A (alignment calculator) or B (non-      *)
(* linear bias) has an option valuation.  Trying a change either succeeds  *)
(* or is rejected -- by the call that sets it, or when a result that needs *)
(* it is first asked for.  After a rejection the options named in the      *)
(* change are undetermined until they are set again; everything else is as *)
(* before, and setting valid values makes the object equal to a new one.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

Amp == << "claw", "slaw", "two", "mpc", "mps", "lpc", "lps", "fc", "fs" >>
OptsOf(k) == CASE k = "S" -> << "nl", "ing", "resp", "hod", "pois", "plin", "pnl", "sig" >> \o Amp
               [] k = "A" -> << "method", "ell", "nm", "sig" >> \o Amp
               [] OTHER -> << "amp", "sig" >>
Values(p) ==
   CASE p = "nl" -> <<"None", "bnl", "hmcode", "fortuna", "bad">>
     [] p = "ing" -> <<"None", "mead2020", "mead2020_feedback", "fit", "bad">>
     [] p = "resp" -> <<"F", "T">>
     [] p = "hod" -> <<"Cacciato", "Zheng", "Zhai", "Simple", "Zehavi", "bad">>
     [] p = "pois" -> <<"constant", "power_law", "flat", "no_pivot", "no_slope", "bad">>
     [] p \in {"plin", "pnl"} -> <<"None", "ok", "badk", "badz", "bad1", "bad3", "badt">>
     [] p = "sig" -> <<"a", "b">>                         \* an ordinary parameter changed along the way
     [] p \in {"claw", "slaw"} -> <<"constant", "halo_mass", "luminosity", "bad">>
     [] p = "two" -> <<"None", "given", "zero">>
     [] p \in {"mpc", "mps", "lpc", "lps"} -> <<"given", "None", "zero">>    \* zero is a value like others
     [] p \in {"fc", "fs"} -> <<"given", "None", "missing">>
     [] p = "method" -> <<"fftlog", "hankel", "bad">>
     [] p = "ell" -> <<"ok", "bad">>
     [] p = "nm" -> <<"ok", "bad">>
     [] p = "amp" -> <<"sigma8", "A_s", "none">>
SeqSet(s) == {s[i] : i \in DOMAIN s}
Vals(k) == [SeqSet(OptsOf(k)) -> UNION {SeqSet(Values(p)) : p \in SeqSet(OptsOf(k))}]
Default(k) == [p \in SeqSet(OptsOf(k)) |-> Values(p)[1]]

BadShape == {"badk", "badz", "bad1", "bad3", "badt"}   \* too few wavenumbers, too many or too few redshifts, a third axis, transposed
AmpFault(v) == {x \in {"claw", "slaw"} :
   \/ v[x] = "bad"
   \/ x = "claw" /\ v["claw"] = "luminosity" /\ (v["lpc"] = "None" \/ v["fc"] # "given")
   \/ x = "claw" /\ v["claw"] = "halo_mass" /\ (v["mpc"] = "None" \/ v["two"] # "None")
   \/ x = "slaw" /\ v["slaw"] = "luminosity" /\ (v["lps"] = "None" \/ v["fs"] # "given")
   \/ x = "slaw" /\ v["slaw"] = "halo_mass" /\ v["mps"] = "None" }
All == {"mm", "gg", "gm", "mi", "ii", "gi"}
IA == {"mi", "ii", "gi"}
\* the results that cannot be computed with the valuation
Broken(k, v) ==
   CASE k = "S" -> UNION { IF v["nl"] = "bad" \/ v["ing"] = "bad" \/ v["hod"] = "bad" \/ v["pois"] = "bad" THEN All ELSE {},
                           IF v["nl"] = "hmcode" /\ v["ing"] \notin {"mead2020", "mead2020_feedback"} THEN All ELSE {},
                           IF v["plin"] \in BadShape THEN (IF v["resp"] = "T" THEN All \ {"mm"} ELSE All) ELSE {},   \* response mm is the non-linear input
                           IF v["pnl"] \in BadShape /\ v["resp"] = "T" THEN All ELSE {},
                           IF v["pnl"] \in BadShape /\ v["nl"] = "fortuna" THEN IA ELSE {},
                           IF v["pois"] \in {"no_pivot", "no_slope"} THEN {"gg"} ELSE {},
                           IF AmpFault(v) # {} THEN IA ELSE {} }
     [] k = "A" -> UNION { IF v["method"] = "bad" \/ v["ell"] = "bad" THEN {"amp", "kernel"} ELSE {},
                           IF v["method"] = "hankel" /\ v["nm"] = "bad" THEN {"kernel"} ELSE {},
                           IF "claw" \in AmpFault(v) THEN {"amp"} ELSE {},
                           IF "slaw" \in AmpFault(v) THEN {"amp", "kernel"} ELSE {} }
     [] OTHER -> IF v["amp"] = "none" THEN {"bnl"} ELSE {}
Supported(k, v) == Broken(k, v) = {}

VARIABLES kind, val, named, state     \* state: "ok" or "rejected" (the options in named are undetermined)
ovars == <<kind, val, named, state>>
Upd(v, c) == [p \in DOMAIN v |-> IF \E i \in DOMAIN c : c[i][1] = p THEN c[CHOOSE i \in DOMAIN c : c[i][1] = p][2] ELSE v[p]]
NamedIn(c) == {c[i][1] : i \in DOMAIN c}
\* a change (with everything undetermined set as well) leads to a supported valuation or is rejected
Try(c) == LET w == Upd(val, c) IN
            /\ named \subseteq NamedIn(c) \/ state = "ok"
            /\ IF Supported(kind, w) THEN val' = w /\ state' = "ok" /\ named' = {}
               ELSE val' = w /\ state' = "rejected" /\ named' = named \cup NamedIn(c)
            /\ UNCHANGED kind
Use == state = "ok" /\ UNCHANGED ovars
OkIsSupported == state = "ok" => Supported(kind, val)
=============================================================================
