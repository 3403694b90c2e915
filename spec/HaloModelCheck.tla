--------------------------- MODULE HaloModelCheck ---------------------------
(***************************************************************************)
(* Enumerates the option configurations, checks the expressions of         *)
(* HaloModel in each, and exports the ones selected for the comparison     *)
(* with the code.                                                          *)
(***************************************************************************)
EXTENDS HaloModel, Json, IOUtils

ToNum(str) == CHOOSE n \in 0..20000 : ToString(n) = str
Seed == ToNum(IOEnv.SEED)
NVar == ToNum(IOEnv.NVAR)      \* variants of the secondary options per main configuration
Wanted == IOEnv.WANT           \* the spectra to export: "mm", "g", "ia", "bnl" or "all"

MainCfg == {m \in [nl : NLModes, ing : Ingredients, resp : Flag, pm : Flag] : ValidPair(m.nl, m.ing)}
Second == [dw : Flag, t1 : Flag, t2 : Flag, t1i : Flag, t2i : Flag, bc : Flag, bs : Flag,
           pois : {"constant", "power_law"}, hod : {"Cacciato", "Zheng"}, plin : Flag, pnl : Flag]
MainSeq == SetToSeq(MainCfg)
\* variant v of main configuration i: secondary options from the bits of a multiplicative sequence, so that the
\* variants of all main configurations together cover all pairs of secondary options
Bit(x, n) == IF (x \div (2^n)) % 2 = 1 THEN "T" ELSE "F"
Variant(i, v) ==
  LET x == (i * 1103 + v * 2741 + Seed * 977 + 3 * v * v * (i % 7)) % 2048
  IN [dw |-> Bit(x, 0), t1 |-> Bit(x, 1), t2 |-> Bit(x, 2), t1i |-> Bit(x, 3), t2i |-> Bit(x, 4), bc |-> Bit(x, 5),
      bs |-> Bit(x, 6), pois |-> IF Bit(x, 7) = "T" THEN "constant" ELSE "power_law",
      hod |-> IF Bit(x, 8) = "T" THEN "Zheng" ELSE "Cacciato", plin |-> Bit(x, 9), pnl |-> Bit(x, 10)]
Default == [dw |-> "F", t1 |-> "T", t2 |-> "T", t1i |-> "T", t2i |-> "T", bc |-> "F", bs |-> "F", pois |-> "constant",
            hod |-> "Cacciato", plin |-> "F", pnl |-> "F"]
Cfg(i, v) == MainSeq[i] @@ (IF v = 0 THEN Default ELSE Variant(i, v))

WantedSpectra == CASE Wanted = "mm" -> <<"mm">> [] Wanted = "g" -> <<"gg", "gm">> [] Wanted = "ia" -> <<"mi", "ii", "gi">>
                   [] OTHER -> <<"mm", "gg", "gm", "mi", "ii", "gi">>
Selected(c) == Wanted # "bnl" \/ c.nl = "bnl"

VARIABLES i, v
vars == <<i, v>>
Init == i = 1 /\ v = 0
Next == \/ i < Len(MainSeq) /\ i' = i + 1 /\ v' = v
        \/ i = Len(MainSeq) /\ v < NVar /\ v' = v + 1 /\ i' = 1
Spec == Init /\ [][Next]_vars
c == Cfg(i, v)

\* ---- properties of the composition, in every configuration
WellFormed == \A s \in Spectra, p \in Parts : Axes(Terms(s, c)[p]) \subseteq {"b", "z", "k"}
\* the total is the sum of the terms, except for the smoothed transition and the response matter spectrum
TotalIsSum == \A s \in Spectra : LET h == Halo(s, c) IN
                 (s # "mm" \/ c.nl # "hmcode") => h.tot = Add(<<h.oneh, h.twoh>>)
ResponseScales == c.resp = "T" => /\ MM(c).tot = Pnl
                                  /\ \A s \in Spectra \ {"mm"} : \A p \in {"oneh", "twoh", "tot"} :
                                        Terms(s, c)[p] = Mul(<<Halo(s, c)[p], Ratio(c)>>)
                                  /\ \A s \in {"gg", "gm"} : Terms(s, c).bias = Halo(s, c).bias
GalaxyLeaves == {"Nc", "Ns", "nc", "ns", "fc", "fs", "Mavg", "usat", "fstar", "p", "ppivot", "pslope"}
AlignLeaves == {"Agi", "wkm", "bcen", "bsat", "mpcen", "mpsat", "k1ia", "k2ia", "t_eff"}
Separated == /\ \A p \in Parts : Leaves(MM(c)[p]) \cap (GalaxyLeaves \cup AlignLeaves) = {}
             /\ \A s \in {"gg", "gm"}, p \in Parts : Leaves(Terms(s, c)[p]) \cap AlignLeaves = {}
             /\ c.nl # "bnl" => \A s \in Spectra, p \in Parts : "beta" \notin Leaves(Terms(s, c)[p])
             /\ \A s \in Spectra : Leaves(Halo(s, c).twoh) \cap {"mb", "fstar", "fstar_mm", "theta", "k1", "k1ia", "p"} = {}
             /\ \A s \in Spectra : Leaves(Halo(s, c).oneh) \cap {"bias", "plin0", "pnl0", "beta", "k2ia", "t_eff"} = {}
Signs == \A p \in {"oneh", "twoh"} : /\ Sign(Halo("mm", c)[p]) = "+" /\ Sign(Halo("gg", c)[p]) = "+"
                                     /\ Sign(Halo("gm", c)[p]) = "+" /\ Sign(Halo("ii", c)[p]) = "+"
                                     /\ Sign(Halo("gi", c)[p]) = "+" /\ Sign(Halo("mi", c)[p]) = "-"
\* in the non-linear bias mode nothing is damped on large scales
NoDamping == c.nl = "bnl" => \A s \in Spectra : /\ Count(Halo(s, c).twoh, C("0.05699")) = 0
                                                /\ "k2ia" \notin Leaves(Halo(s, c).twoh)

Export == Selected(c) =>
   PrintT("CFG" \o ToJson([i |-> i, v |-> v, cfg |-> c,
        terms |-> [s \in {WantedSpectra[n] : n \in DOMAIN WantedSpectra} |-> Terms(s, c)], halo |-> MMhalo(c).tot]))
=============================================================================
