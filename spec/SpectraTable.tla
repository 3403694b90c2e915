---------------------------- MODULE SpectraTable ----------------------------
(***************************************************************************)
(* The parameters of the Spectra model (pk.py, hmi.py), the value names    *)
(* used for them (made concrete by vf/bind_spectra.py), the valuations the *)
(* class accepts, and the option profiles ("modes") to be explored.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* numerical parameters and model names: value "b" (base) and "a" (alternative)
PlainParams ==
  << "h0", "omega_c", "omega_b", "w0", "wa", "n_s", "tcmb", "Neff", "m_nu", "sigma_8", "log10T_AGN",
     "k_vec", "z_vec", "lnk_min", "lnk_max", "dlnk", "Mmin", "Mmax", "dlog10m",
     "mdef_model", "hmf_model", "bias_model", "halo_concentration_model_dm", "halo_concentration_model_sat",
     "halo_profile_model_dm", "halo_profile_model_sat", "transfer_model", "growth_model",
     "norm_cen", "norm_sat", "eta_cen", "eta_sat", "overdensity", "delta_c",
     "mb", "one_halo_ktrunc", "two_halo_ktrunc", "t_eff", "one_halo_ktrunc_ia", "two_halo_ktrunc_ia" >>

\* options that select a branch
SwitchParams ==
  << "nonlinear_mode", "hmcode_ingredients", "response", "pointmass", "dewiggle", "compute_observable",
     "matter_power_lin", "matter_power_nl", "beta_nl", "poisson_model", "hod_model" >>

\* keys of dictionary parameters ("-" = key absent)
KeyParams ==
  << "hod_params.A_cen", "hod_params.A_sat", "hod_params.g1", "hod_params.log10_Mmin",
     "hod_settings.obs_min", "hod_settings.obs_max", "hod_settings.zmin", "hod_settings.zmax", "hod_settings.nz",
     "hod_settings.nobs", "hod_settings.observable_h_unit",
     "hod_settings_mm.obs_min", "hod_settings_mm.obs_max", "obs_settings.obs_min", "obs_settings.nobs",
     "poisson_params.poisson", "poisson_params.pivot", "poisson_params.slope",
     "align_params.gamma_2h_amplitude", "align_params.gamma_1h_amplitude", "align_params.gamma_1h_slope",
     "align_params.beta_cen", "align_params.beta_sat", "align_params.mpivot_cen", "align_params.mpivot_sat",
     "transfer_params.use_sugiyama_baryons", "growth_params.dlna" >>

SRange(s) == {s[i] : i \in DOMAIN s}
AllParams == SRange(PlainParams) \cup SRange(SwitchParams) \cup SRange(KeyParams)

SBase == [p \in AllParams |->
   CASE p \in SRange(PlainParams) -> "b"
     [] p \in {"nonlinear_mode", "hmcode_ingredients", "matter_power_lin", "matter_power_nl", "beta_nl"} -> "None"
     [] p \in {"response", "pointmass", "dewiggle", "compute_observable"} -> "F"
     [] p = "poisson_model" -> "constant"
     [] p = "hod_model" -> "Cacciato"
     [] p \in {"hod_settings.obs_min", "hod_settings.obs_max", "hod_settings.zmin", "hod_settings.zmax", "hod_settings.nz",
               "hod_settings.nobs", "hod_settings.observable_h_unit", "hod_settings_mm.obs_min",
               "hod_settings_mm.obs_max", "obs_settings.obs_min", "obs_settings.nobs"} -> "b"
     [] OTHER -> "-"]

\* numerical parameters also get a value "n" next to the base value (relative distance 4e-6, arrays in one element)
Numeric == {"h0", "omega_c", "omega_b", "w0", "n_s", "tcmb", "Neff", "m_nu", "sigma_8", "log10T_AGN", "k_vec", "z_vec", "Mmin",
            "norm_cen", "norm_sat", "eta_cen", "eta_sat", "overdensity", "delta_c", "mb", "t_eff", "wa"}
NumericKeys == {"hod_settings.obs_min", "hod_settings.obs_max", "hod_settings.zmin", "hod_settings.zmax"}
SAlts == [p \in AllParams |->
   CASE p \in {"one_halo_ktrunc", "two_halo_ktrunc", "one_halo_ktrunc_ia", "two_halo_ktrunc_ia"} -> {"a", "n", "None"}
     [] p \in NumericKeys -> {"a", "n", "i", "s"}     \* "s": a single sample
     [] p = "k_vec" -> {"a", "n", "i", "f"}      \* "f": fine enough for the smoothing of the wiggles to act
     [] p = "z_vec" -> {"a", "n", "i"}  \* "i": the last element, the length (and the first of k) stay
     [] p \in Numeric -> {"a", "n"}
     [] p \in SRange(PlainParams) -> {"a"}
     [] p = "nonlinear_mode" -> {"bnl", "hmcode", "fortuna"}
     [] p = "hmcode_ingredients" -> {"mead2020", "mead2020_feedback", "fit"}
     [] p \in {"response", "pointmass", "dewiggle", "compute_observable"} -> {"T"}
     [] p \in {"matter_power_lin", "matter_power_nl", "beta_nl"} -> {"x", "y", "xn", "xi"}
     [] p = "poisson_model" -> {"power_law"}
     [] p = "hod_model" -> {"Zheng", "Zhai"}
     [] OTHER -> {"a"}]

SDictParams == {"hod_params", "poisson_params", "align_params", "transfer_params", "growth_params"}
SDictKeys == [d \in SDictParams |->
   CASE d = "hod_params" -> {"hod_params.A_cen", "hod_params.A_sat", "hod_params.g1", "hod_params.log10_Mmin"}
     [] d = "poisson_params" -> {"poisson_params.poisson", "poisson_params.pivot", "poisson_params.slope"}
     [] d = "align_params" -> {"align_params.gamma_2h_amplitude", "align_params.gamma_1h_amplitude", "align_params.gamma_1h_slope",
          "align_params.beta_cen", "align_params.beta_sat", "align_params.mpivot_cen", "align_params.mpivot_sat"}
     [] d = "transfer_params" -> {"transfer_params.use_sugiyama_baryons"}
     [] d = "growth_params" -> {"growth_params.dlna"}]

\* Spectra.validate: the hmcode correction needs calibrated ingredients
Accepts(v) == v["nonlinear_mode"] = "hmcode" => v["hmcode_ingredients"] \in {"mead2020", "mead2020_feedback"}

\* Valuations explored.  Beyond Accepts we keep to those that evaluate: keys a model does not have, or a power-law
\* shot noise without pivot and slope, make the evaluation itself fail (that is property C06).  A non-linear bias mode
\* without a correction has it computed by the (stand-in) emulator.
Evaluable(v) ==
  /\ Accepts(v)
  /\ (\A p \in NumericKeys : v[p] = "s") \/ (\A p \in NumericKeys : v[p] # "s")
  /\ v["hod_settings.obs_min"] = "s" => v["hod_model"] = "Cacciato"
  /\ v["nonlinear_mode"] = "bnl" /\ v["beta_nl"] # "None" => v["Mmax"] = "b" /\ v["dlog10m"] = "b"     \* the arrays supplied are 8 x 8
  /\ v["k_vec"] = "f" => v["nonlinear_mode"] # "bnl" /\ v["beta_nl"] = "None" /\ v["matter_power_lin"] = "None" /\ v["matter_power_nl"] = "None"
  /\ v["poisson_model"] = "power_law" => v["poisson_params.pivot"] # "-" /\ v["poisson_params.slope"] # "-"
  /\ v["poisson_model"] = "constant" => v["poisson_params.pivot"] = "-" /\ v["poisson_params.slope"] = "-"
  /\ v["hod_model"] # "Cacciato" => v["hod_params.g1"] = "-" /\ v["compute_observable"] = "F"
  /\ v["hod_model"] = "Cacciato" => v["hod_params.log10_Mmin"] = "-"
  /\ v["hod_model"] # "Cacciato" => v["hod_params.log10_Mmin"] # "-"          \* two samples need per-sample values
  /\ v["transfer_model"] = "b" => v["transfer_params.use_sugiyama_baryons"] = "-"

Single == << <<"hod_settings.obs_min", "s">>, <<"hod_settings.obs_max", "s">>, <<"hod_settings.zmin", "s">>, <<"hod_settings.zmax", "s">> >>
\* changes that keep a combination of parameters: Om0; Om0 h^2 and Ob0 h^2; the set of samples; the number of masses
SJoints == << << <<"omega_c", "j">>, <<"omega_b", "j">> >>,
              << <<"h0", "a">>, <<"omega_c", "jh">>, <<"omega_b", "jh">> >>,
              << <<"hod_settings.obs_min", "p">>, <<"hod_settings.obs_max", "p">>, <<"hod_settings.zmin", "p">>, <<"hod_settings.zmax", "p">> >>,
              << <<"Mmin", "j">>, <<"Mmax", "j">> >> >>
\* option profiles: deviations from the base valuation
SProfiles ==
  << << >>,
     << <<"hmcode_ingredients", "mead2020">>, <<"nonlinear_mode", "hmcode">> >>,
     << <<"hmcode_ingredients", "mead2020_feedback">>, <<"nonlinear_mode", "hmcode">>, <<"response", "T">> >>,
     << <<"hmcode_ingredients", "mead2020_feedback">> >>,
     << <<"nonlinear_mode", "bnl">>, <<"beta_nl", "x">> >>,
     << <<"nonlinear_mode", "fortuna">>, <<"align_params.beta_cen", "a">> >>,
     << <<"hmcode_ingredients", "fit">>, <<"mb", "a">>, <<"response", "T">>, <<"hod_settings_mm.obs_max", "a">> >>,
     << <<"pointmass", "T">>, <<"mb", "a">>, <<"compute_observable", "T">>, <<"dewiggle", "T">>, <<"k_vec", "f">> >>,
     << <<"poisson_model", "power_law">>, <<"poisson_params.pivot", "a">>, <<"poisson_params.slope", "a">>,
        <<"matter_power_lin", "x">> >>,
     << <<"hod_model", "Zheng">>, <<"hod_params.log10_Mmin", "a">>, <<"mdef_model", "a">>,
        <<"transfer_model", "a">> >>,
     << <<"nonlinear_mode", "fortuna">>, <<"response", "T">>, <<"matter_power_nl", "x">>, <<"t_eff", "a">>,
        <<"hmcode_ingredients", "mead2020">> >>,
     << <<"nonlinear_mode", "bnl">>, <<"beta_nl", "y">>, <<"hmcode_ingredients", "fit">>, <<"response", "T">>,
        <<"pointmass", "T">> >>,
     Single \o << <<"nonlinear_mode", "bnl">>, <<"beta_nl", "x">> >>,
     Single \o << <<"nonlinear_mode", "hmcode">>, <<"hmcode_ingredients", "mead2020">>, <<"response", "T">> >>,
     << <<"nonlinear_mode", "bnl">> >> >>

\* groups of quantities read together, in this order (made concrete by the driver)
SGroups == << "all", "mm", "gg", "gm", "ia", "ingr", "hod", "rev" >>
SPOrder == PlainParams \o SwitchParams \o KeyParams
=============================================================================
