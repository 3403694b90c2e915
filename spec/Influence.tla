----------------------------- MODULE Influence -----------------------------
(***************************************************************************)
(* Which parameter influences which result in which mode.  Derived from    *)
(* the expressions of HaloModel: a result may depend on a parameter only   *)
(* if one of the leaves of its expression does (May), and must change with *)
(* it if a leaf is certain to change (Must).  A switch influences exactly  *)
(* the results whose expression differs.                                   *)
(***************************************************************************)
EXTENDS HaloModel
Cosmo == {"h0", "omega_c", "omega_b", "w0", "wa", "n_s", "m_nu", "sigma_8"}
Fixed(c) == Mead(c)                            \* calibrated ingredients replace the user's choices
Virial(c) == c.mdef = "SOVirial"
MassDef(c) == IF Fixed(c) THEN {} ELSE {"mdef_model"} \cup (IF Virial(c) THEN {} ELSE {"overdensity"})
Thr(c) == IF Fixed(c) THEN {} ELSE {"mdef_model"} \cup (IF Virial(c) THEN {} ELSE {"delta_c"})
Model(c, p) == IF Fixed(c) THEN {} ELSE {p}
Agn(c) == IF c.ing = "mead2020_feedback" THEN {"log10T_AGN"} ELSE {}
CenPar == {"hod_cen_par", "A_cen"}
SatPar == {"hod_sat_par", "A_sat"}
Obs(c) == IF c.hod = "Cacciato" THEN {"obs_min"} ELSE {}
Unit(c) == IF c.hod = "Cacciato" THEN {"observable_h_unit"} ELSE {}
StarPar(c) == IF c.hod = "Cacciato" THEN {"hod_cen_par", "hod_sat_par"} ELSE {}
DnMay(c) == Cosmo \cup Model(c, "hmf_model") \cup MassDef(c) \cup Thr(c)

May(n, c) ==
   CASE n \in {"k", "M", "m0", "z"} -> {}
     [] n = "plin0" -> IF c.plin = "T" THEN {"matter_power_lin"} ELSE Cosmo
     [] n = "pnl0" -> IF c.pnl = "T" THEN {"matter_power_nl"} ELSE Cosmo
     [] n = "nowiggle" -> Cosmo
     [] n = "dn" -> DnMay(c)
     [] n = "bias" -> Cosmo \cup Model(c, "bias_model") \cup MassDef(c) \cup Thr(c)
     [] n = "udm" -> Cosmo \cup {"halo_profile_model_dm", "norm_cen"} \cup Model(c, "halo_concentration_model_dm")
                     \cup Model(c, "eta_cen") \cup MassDef(c) \cup Thr(c) \cup Agn(c)
     [] n = "usat" -> Cosmo \cup {"halo_profile_model_sat", "norm_sat"} \cup Model(c, "halo_concentration_model_sat")
                      \cup Model(c, "eta_sat") \cup MassDef(c) \cup Thr(c) \cup Agn(c)
     [] n \in {"rho", "D", "s8z"} -> Cosmo
     [] n = "neff" -> Cosmo \cup Thr(c)
     [] n = "Oc" -> {"omega_c"}
     [] n = "Ob" -> {"omega_b"}
     [] n = "theta" -> {"log10T_AGN"}
     [] n = "mb" -> {"mb"}
     [] n = "beta" -> IF c.bsup = "T" THEN {"beta_nl"} ELSE Cosmo \ {"wa"}       \* supplied, or from the emulator
     [] n = "Nc" -> CenPar \cup Obs(c)
     [] n = "Ns" -> SatPar \cup Obs(c)
     [] n = "nc" -> CenPar \cup Obs(c) \cup DnMay(c)
     [] n = "ns" -> SatPar \cup Obs(c) \cup DnMay(c)
     [] n \in {"fc", "fs"} -> CenPar \cup SatPar \cup Obs(c) \cup DnMay(c)
     [] n = "Mavg" -> CenPar \cup SatPar \cup Obs(c) \cup DnMay(c)
     [] n = "fstar" -> StarPar(c) \cup Obs(c) \cup Unit(c)      \* with the unit 1/h
     [] n = "fstar_mm" -> IF c.hod = "Cacciato" /\ c.ing = "fit" THEN StarPar(c) \cup {"mm_obs_min", "h0"} ELSE {}
     [] n = "p" -> {"poisson"}
     [] n = "ppivot" -> {"pivot"}
     [] n = "pslope" -> {"slope"}
     [] n = "k1" -> {"one_halo_ktrunc"}
     [] n = "k1ia" -> {"one_halo_ktrunc_ia"}
     [] n = "k2ia" -> {"two_halo_ktrunc_ia"}
     [] n = "t_eff" -> {"t_eff"}
     [] n = "Agi" -> {"gamma_2h_amplitude"}
     [] n = "wkm" -> {"gamma_1h_amplitude", "gamma_1h_slope"} \cup Cosmo \cup {"norm_cen", "halo_profile_model_dm"} \cup MassDef(c) \cup Thr(c)
                     \cup Model(c, "halo_concentration_model_dm") \cup Model(c, "eta_cen") \cup Agn(c)
     [] n = "bcen" -> {"beta_cen"}
     [] n = "bsat" -> {"beta_sat"}
     [] n = "mpcen" -> {"mpivot_cen"}
     [] n = "mpsat" -> {"mpivot_sat"}

Must(n, c) ==
   CASE n = "plin0" -> IF c.plin = "T" THEN {"matter_power_lin"} ELSE {"h0", "omega_c", "omega_b", "n_s", "sigma_8"}
     [] n = "pnl0" -> IF c.pnl = "T" THEN {"matter_power_nl"} ELSE {"h0", "omega_c", "omega_b", "n_s", "sigma_8"}
     [] n = "dn" -> {"h0", "omega_c", "omega_b", "n_s", "sigma_8"} \cup Model(c, "hmf_model") \cup ((MassDef(c) \cup Thr(c)) \ {"mdef_model"})
     [] n = "bias" -> {"omega_c", "n_s", "sigma_8"} \cup Model(c, "bias_model") \cup ((MassDef(c) \cup Thr(c)) \ {"mdef_model"})
     [] n = "udm" -> {"halo_profile_model_dm", "norm_cen"} \cup Model(c, "halo_concentration_model_dm") \cup Model(c, "eta_cen")
                     \cup (MassDef(c) \ {"mdef_model"}) \cup Agn(c)
     [] n = "usat" -> {"halo_profile_model_sat", "norm_sat"} \cup Model(c, "halo_concentration_model_sat") \cup Model(c, "eta_sat")
                      \cup (MassDef(c) \ {"mdef_model"}) \cup Agn(c)
     [] n = "rho" -> {"omega_c", "omega_b"}
     [] n = "D" -> {"omega_c", "omega_b", "w0", "wa"}
     [] n = "beta" -> IF c.bsup = "T" THEN {"beta_nl"} ELSE {}       \* the emulator's range is limited
     [] n = "s8z" -> {"sigma_8"}
     [] n = "neff" -> {"sigma_8", "n_s"}
     [] n \in {"nc"} -> CenPar \cup Obs(c) \cup {"sigma_8"}
     [] n \in {"ns"} -> SatPar \cup Obs(c) \cup {"sigma_8"}
     [] n \in {"fc", "fs"} -> CenPar \cup SatPar \cup Obs(c) \cup {"sigma_8"}
     [] n = "Mavg" -> CenPar \cup SatPar \cup Obs(c) \cup {"sigma_8"}
     [] n = "wkm" -> {"gamma_1h_amplitude", "gamma_1h_slope", "norm_cen"} \cup Model(c, "halo_concentration_model_dm") \cup (MassDef(c) \ {"mdef_model"})
     [] OTHER -> May(n, c)

\* leaves that can be read from the model directly
Direct == << "dn", "bias", "udm", "usat", "rho", "D", "s8z", "neff", "Nc", "Ns", "nc", "ns", "fc", "fs", "fstar", "fstar_mm", "Mavg", "Agi", "wkm" >>
InfParts == <<"oneh", "twoh", "tot", "bias">>
SpSeq == <<"mm", "gg", "gm", "mi", "ii", "gi">>
Switches == << "pointmass", "dewiggle", "response", "poisson_model", "t1", "t1i", "t2i" >>
InfParams == << "h0", "omega_c", "omega_b", "w0", "wa", "n_s", "m_nu", "sigma_8", "log10T_AGN", "delta_c", "overdensity", "mdef_model",
                "hmf_model", "bias_model", "halo_profile_model_dm", "halo_profile_model_sat", "halo_concentration_model_dm",
                "halo_concentration_model_sat", "norm_cen", "norm_sat", "eta_cen", "eta_sat", "mb", "one_halo_ktrunc",
                "one_halo_ktrunc_ia", "two_halo_ktrunc_ia", "t_eff", "poisson", "pivot", "slope", "hod_cen_par", "hod_sat_par", "A_cen",
                "A_sat", "obs_min", "mm_obs_min", "observable_h_unit", "gamma_2h_amplitude", "gamma_1h_amplitude", "gamma_1h_slope",
                "beta_cen", "beta_sat", "mpivot_cen", "mpivot_sat", "matter_power_lin", "matter_power_nl", "beta_nl" >>
Toggle(f) == IF f = "T" THEN "F" ELSE "T"
Switched(c, w) == CASE w = "pointmass" -> [c EXCEPT !.pm = Toggle(@)]
                    [] w = "dewiggle" -> [c EXCEPT !.dw = Toggle(@)]
                    [] w = "response" -> [c EXCEPT !.resp = Toggle(@)]
                    [] w = "poisson_model" -> [c EXCEPT !.pois = IF @ = "constant" THEN "power_law" ELSE "constant"]
                    [] w = "t1" -> [c EXCEPT !.t1 = Toggle(@)]
                    [] w = "t1i" -> [c EXCEPT !.t1i = Toggle(@)]
                    [] w = "t2i" -> [c EXCEPT !.t2i = Toggle(@)]
\* a parameter that the caller has not supplied cannot be changed
Settable(c, p) == CASE p = "matter_power_lin" -> c.plin = "T" [] p = "matter_power_nl" -> c.pnl = "T" [] p = "beta_nl" -> c.nl = "bnl" /\ c.bsup = "T"
                    [] p \in {"pivot", "slope"} -> c.pois = "power_law" [] p \in {"beta_cen"} -> c.bc = "T" [] p \in {"beta_sat"} -> c.bs = "T"
                    [] p = "one_halo_ktrunc" -> c.t1 = "T" [] p = "one_halo_ktrunc_ia" -> c.t1i = "T" [] p = "two_halo_ktrunc_ia" -> c.t2i = "T"
                    [] OTHER -> TRUE
MayAll(ls, c) == UNION {May(n, c) : n \in ls}
MustAll(ls, c) == UNION {Must(n, c) : n \in ls}
\* what influences what, in general: checked by TLC in every configuration
GalaxyPars == CenPar \cup SatPar \cup {"obs_min", "observable_h_unit", "poisson", "pivot", "slope", "norm_sat", "eta_sat", "halo_profile_model_sat",
               "halo_concentration_model_sat"}
AlignPars == {"gamma_2h_amplitude", "gamma_1h_amplitude", "gamma_1h_slope", "beta_cen", "beta_sat", "mpivot_cen", "mpivot_sat", "t_eff",
              "one_halo_ktrunc_ia", "two_halo_ktrunc_ia"}
OneHaloPars == {"mb", "one_halo_ktrunc", "one_halo_ktrunc_ia", "poisson", "pivot", "slope", "observable_h_unit"}
=============================================================================
