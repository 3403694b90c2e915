------------------------------ MODULE Interface ------------------------------
(***************************************************************************)
(* The pipeline module: which model parameter comes from which option or   *)
(* sampled value, and which result goes to which section and name.         *)
(*                                                                         *)
(* A configuration says which options are given; the tables below say what *)
(* a run with it must do.  Sections and names are case-insensitive (lower  *)
(* case here).                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
IFields == << "p_mm", "p_gg", "p_gm", "p_gi", "p_mi", "p_ii", "response", "mode", "ingr", "hod", "nb", "nbia", "src", "srcia", "split",
              "lc", "ls", "pois", "obs", "names", "t1", "t2", "t1i", "t2i", "models", "vals", "decor", "dew", "pm", "unit" >>
IChoices(f) ==
   CASE f \in {"p_mm", "p_gg", "p_gm", "p_gi", "p_mi", "p_ii"} -> {"T", "F", "absent"}
     [] f = "response" -> {"T", "F", "absent", "absent2"}
     [] f = "mode" -> {"absent", "None", "hmcode", "fortuna", "bnl"}
     [] f = "ingr" -> {"absent", "None", "mead2020", "mead2020_feedback", "fit"}
     [] f = "hod" -> {"absent", "Cacciato", "Zheng", "Zhai"}
     [] f = "nb" -> {"1", "2", "3"} [] f = "nbia" -> {"1", "2"}
     [] f \in {"src", "srcia"} -> {"direct", "direct2", "file"}
     [] f = "split" -> {"T", "F", "absent"}
     [] f \in {"lc", "ls"} -> {"absent", "halo_mass", "constant"}
     [] f = "pois" -> {"constant", "power_law"}
     [] f = "obs" -> {"none", "single", "grid", "bins", "file"}
     [] f \in {"names", "models", "vals"} -> {"default", "given"}
     [] f \in {"t1", "t2", "t1i", "t2i"} -> {"absent", "None", "num"}
     [] f = "decor" -> {"none", "given"}
     [] f \in {"dew", "pm"} -> {"absent", "T", "F"}
     [] f = "unit" -> {"absent", "1/h"}

Asked(c, s) == c["p_" \o s] = "T"
Galaxy(c) == Asked(c, "gg") \/ Asked(c, "gm")
Align(c) == Asked(c, "gi") \/ Asked(c, "mi") \/ Asked(c, "ii")
Resp(c) == c.response = "T"
Split(c) == c.split = "T"
Model(c) == IF c.hod = "absent" THEN "Cacciato" ELSE c.hod
\* numbers of samples: a file defines one
Num(x) == CASE x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3
NGal(c) == IF c.src = "file" THEN 1 ELSE Num(c.nb)
NIa(c) == IF c.srcia = "file" THEN 1 ELSE Num(c.nbia)
NObs(c) == IF c.obs = "bins" THEN 2 ELSE 1
\* supported: see Options.tla; parameters per galaxy sample can only be shared with as many alignment samples
ISupported(c) ==
   /\ (c.mode = "hmcode" => c.ingr \in {"mead2020", "mead2020_feedback"})
   /\ (Model(c) # "Cacciato" /\ Galaxy(c) /\ Align(c)) => NGal(c) \in {1, NIa(c)}
   /\ (Model(c) # "Cacciato" => c.ingr # "fit")

-----------------------------------------------------------------------------
\* where a model parameter comes from
S(p, k, s, n, d) == [p |-> p, k |-> k, s |-> s, n |-> n, d |-> d]
Opt(p, n, d) == S(p, "opt", "", n, d)            \* option n of the module, default d
OptNone(p, n, d) == S(p, "optnone", "", n, d)    \* the text None means no value
Val(p, s, n) == S(p, "val", s, n, "")            \* sampled value, required
ValDef(p, s, n, d) == S(p, "valdef", s, n, d)
ValNone(p, s, n) == S(p, "valnone", s, n, "")    \* no value if absent
PowTen(p, s, n, d) == S(p, "pow10", s, n, d)
Calc(p, n) == S(p, "calc", "", n, "")
Const(p, d) == S(p, "const", "", "", d)
NoneOf(p) == S(p, "none", "", "", "")
Sample(p, n) == S(p, "sample", "", n, "")        \* the sample ranges with option suffix n
Cosmo == "cosmological_parameters"
HodVals(c) == IF c.names = "given" THEN "my_hod" ELSE "hod_parameters"
ProfVals(c) == IF c.names = "given" THEN "my_profile" ELSE "profile_parameters"
IaVals(c, n) == "intrinsic_alignment_parameters" \o (IF c.names = "given" THEN "_" \o n ELSE "")
IaFirst == "red"    IaSecond == "blue"    IaOnly == "src"

Always(c) == {
   Calc("matter_power_lin", "plin"), Calc("k_vec", "kvec"), Calc("z_vec", "zvec"), Calc("dlog10m", "dlog10m"),
   OptNone("hmcode_ingredients", "hmcode_ingredients", "None"), OptNone("nonlinear_mode", "nonlinear_mode", "None"),
   Opt("dewiggle", "dewiggle", "False"),
   Const("lnk_min", "-18.420680743952367"), Const("lnk_max", "18.420680743952367"), Const("dlnk", "0.05"),
   Opt("Mmin", "log_mass_min", "9.0"), Opt("Mmax", "log_mass_max", "16.0"),
   Opt("mdef_model", "mdef_model", "SOMean"), Opt("hmf_model", "hmf_model", "Tinker10"), Opt("bias_model", "bias_model", "Tinker10"),
   Opt("halo_profile_model_dm", "profile_cen", "NFW"), Opt("halo_concentration_model_dm", "cm_model_cen", "Duffy08"),
   Opt("halo_profile_model_sat", "profile_sat", "NFW"), Opt("halo_concentration_model_sat", "cm_model_sat", "Duffy08"),
   Opt("overdensity", "overdensity", "200.0"), Opt("delta_c", "delta_c", "1.686"),
   OptNone("one_halo_ktrunc", "one_halo_ktrunc", "0.1"), OptNone("two_halo_ktrunc", "two_halo_ktrunc", "2.0"),
   Calc("transfer", "transfer"), Calc("growth", "growth"),
   ValDef("norm_cen", ProfVals(c), "norm_cen", "1.0"), ValDef("norm_sat", ProfVals(c), "norm_sat", "1.0"),
   ValDef("eta_cen", ProfVals(c), "eta_cen", "0.0"), ValDef("eta_sat", ProfVals(c), "eta_sat", "0.0"),
   Val("omega_c", Cosmo, "omega_c"), Val("omega_b", Cosmo, "omega_b"), Val("h0", Cosmo, "h0"), Val("n_s", Cosmo, "n_s"),
   Val("sigma_8", Cosmo, "sigma_8"), Val("m_nu", Cosmo, "mnu"), Val("w0", Cosmo, "w"), Val("wa", Cosmo, "wa"),
   ValDef("tcmb", Cosmo, "tcmb", "2.7255"), Val("log10T_AGN", "halo_model_parameters", "logt_agn"),
   PowTen("mb", "halo_model_parameters", "m_b", "13.87")}
NonLin(c) == (IF c.mode = "bnl" THEN {Calc("beta_nl", "bnl")} ELSE {})
             \cup (IF Resp(c) \/ c.mode = "fortuna" THEN {Calc("matter_power_nl", "pnl"), Opt("response", "response", "False")} ELSE {})
HodNames == [Zheng |-> {"log10_Mmin", "sigma", "log10_M0", "log10_M1", "alpha"},
             Zhai |-> {"log10_Mmin", "sigma", "log10_Msat", "log10_Mcut", "alpha"},
             Cacciato |-> {"log10_obs_norm_c", "log10_m_ch", "g1", "g2", "sigma_log10_O_c", "norm_s", "pivot", "alpha_s", "beta_s", "b0", "b1", "b2"}]
NParam(c) == IF Galaxy(c) THEN NGal(c) ELSE NIa(c)
HodSrc(c) ==
   {IF Model(c) = "Cacciato" THEN Val("hod_params." \o n, HodVals(c), n)
    ELSE S("hod_params." \o n, "bins", HodVals(c), n, ToString(NParam(c))) : n \in HodNames[Model(c)]}
   \cup {ValNone("hod_params." \o n, HodVals(c), n) : n \in {"A_cen", "A_sat"}}
   \cup {Val("poisson_params." \o n, "pk_parameters", n) : n \in IF c.pois = "constant" THEN {"poisson"} ELSE {"poisson", "pivot", "slope"}}
   \cup {Opt("poisson_model", "poisson_type", ""), Opt("pointmass", "point_mass", "False"), Opt("hod_model", "hod_model", "Cacciato")}
   \cup (IF Galaxy(c) THEN {Sample("hod_settings", "hod"), S("hod_settings_mm", "envelope", "", "hod", "")} ELSE {})
   \cup (IF c.obs # "none" THEN {Sample("obs_settings", "smf"), Const("compute_observable", "True")} ELSE {})
LawSrc(law, pop, beta, sec) == IF law \in {"absent", "halo_mass"}
   THEN {Val("align_params.beta_" \o pop, sec, beta), Val("align_params.mpivot_" \o pop, sec, "m_pivot")}
   ELSE {NoneOf("align_params.beta_" \o pop), NoneOf("align_params.mpivot_" \o pop)}
IaSec(c) == IaVals(c, IF Split(c) THEN IaFirst ELSE IaOnly)
AlignSrc(c) ==
   LET sec == IaSec(c) IN
   LawSrc(c.ls, "sat", "beta_sat", sec) \cup LawSrc(c.lc, "cen", "beta", sec)
   \cup {Opt("align_params.central_ia_depends_on", "central_ia_depends_on", "halo_mass"),
         Opt("align_params.satellite_ia_depends_on", "satellite_ia_depends_on", "halo_mass"),
         Val("align_params.gamma_1h_slope", sec, "gamma_1h_radial_slope"), Val("align_params.gamma_1h_amplitude", sec, "gamma_1h_amplitude"),
         Val("align_params.gamma_2h_amplitude", sec, "gamma_2h_amplitude"),
         OptNone("one_halo_ktrunc_ia", "one_halo_ktrunc_ia", "4.0"), OptNone("two_halo_ktrunc_ia", "two_halo_ktrunc_ia", "6.0"),
         ValDef("t_eff", "pk_parameters", "linear_fraction_fortuna", "0.0")}
Sources(c) == Always(c) \cup NonLin(c) \cup (IF Galaxy(c) \/ Align(c) THEN HodSrc(c) ELSE {}) \cup (IF Align(c) THEN AlignSrc(c) ELSE {})
\* the sample the alignment spectra are computed for
AlignSample(c) == IF Split(c) THEN "ia_1" ELSE "ia"

-----------------------------------------------------------------------------
\* where the results go: section s, name n, quantity q of sample b (0: no sample axis)
O(s, n, q, b) == [s |-> s, n |-> n, q |-> q, b |-> b]
Grid(s, n, q) == {O(s, "z", "z_vec", 0), O(s, "m_h", "mass", 0), O(s, n, q, 0)}
Matter == Grid("concentration_m", "c", "conc_cen") \cup Grid("concentration_sat", "c", "conc_sat")
   \cup Grid("nfw_scale_radius_m", "rs", "r_s_cen") \cup Grid("nfw_scale_radius_sat", "rs", "r_s_sat")
   \cup {O("virial_radius", "m_h", "mass", 0), O("virial_radius", "rvir_m", "rvir_cen.0", 0), O("virial_radius", "rvir_sat", "rvir_sat.0", 0)}
   \cup {O("fourier_nfw_profile", "z", "z_vec", 0), O("fourier_nfw_profile", "m_h", "mass", 0), O("fourier_nfw_profile", "k_h", "k_vec", 0),
         O("fourier_nfw_profile", "ukm", "u_dm", 0), O("fourier_nfw_profile", "uksat", "u_sat", 0)}
   \cup {O("density", "mean_density0", "mean_density0", 0), O("density", "rho_crit", "rho_crit", 0), O("density", "mean_density_z", "mean_density_z", 0),
         O("density", "rho_halo", "rho_halo", 0), O("density", "z", "z_vec", 0)}
   \cup Grid("hmf", "dndlnmh", "dndlnm") \cup Grid("hmf", "nu", "nu") \cup {O("hmf", "neff", "neff", 0), O("hmf", "sigma8_z", "sigma8_z", 0)}
   \cup Grid("halobias", "b_hb", "halo_bias") \cup {O(Cosmo, "fnu", "fnu", 0)}
Suf(b, n) == IF n = 1 THEN "" ELSE "_" \o ToString(b)
Occupation(sec, tag, n) == {O(sec, "nbins", "nbins" \o tag, 0)} \cup UNION {
   {O(sec, "z" \o Suf(b, n), "z_vec", 0), O(sec, "mass" \o Suf(b, n), "mass", 0)}
   \cup {O(sec, x[1] \o Suf(b, n), x[2] \o tag, b) : x \in {<<"n_sat", "hod.hod_sat">>, <<"n_cen", "hod.hod_cen">>, <<"n_tot", "hod.hod">>,
      <<"f_star", "fstar">>, <<"number_density_cen", "hod.number_density_cen">>, <<"number_density_sat", "hod.number_density_sat">>,
      <<"number_density_tot", "hod.number_density">>, <<"central_fraction", "hod.f_c">>, <<"satellite_fraction", "hod.f_s">>,
      <<"average_halo_mass", "mass_avg">>}} : b \in 1..n}
Power(sec, sp, n) == UNION {
   {O(sec \o Suf(b, n), "z", "z_out", 0), O(sec \o Suf(b, n), "k_h", "k_out", 0)}
   \cup {O(sec \o Suf(b, n), x[1], "pk." \o sp \o "." \o x[2], b) : x \in {<<"p_k_1h", "1h">>, <<"p_k_2h", "2h">>, <<"p_k", "tot">>}} : b \in 1..n}
Bias(sec, name, sp, n) == UNION {{O(sec \o Suf(b, n), "z", "z_vec", 0), O(sec \o Suf(b, n), "k_h", "k_vec", 0),
                                  O(sec \o Suf(b, n), name, "bias." \o sp, b)} : b \in 1..n}
HodSec(c) == IF c.names = "given" THEN "galhod" ELSE "hod"
IaHodSec(c) == IF Split(c) THEN "hod_ia_1" ELSE "hod_ia"
ObsSec(c) == IF c.names = "given" THEN "obsfun" ELSE "stellar_mass_function"
ObsOut(c) == UNION {{O(ObsSec(c), x[1] \o "_" \o ToString(b), x[2] \o (IF c.obs = "single" THEN ".all" ELSE ""), b) :
                       x \in {<<"obs_func", "obs_func">>, <<"obs_func_c", "obs_func_cen">>, <<"obs_func_s", "obs_func_sat">>, <<"obs_val", "obs_val">>}}
                    \cup (IF c.obs = "single" THEN {} ELSE {O(ObsSec(c), "z_bin_" \o ToString(b), "obs_z", b)}) : b \in 1..NObs(c)}
             \cup {O(ObsSec(c), "obs_func_definition", "obs_text", 0)}
Outputs(c) == Matter
   \cup (IF Asked(c, "mm") /\ ~Resp(c) THEN Power("matter_power_nl", "mm", 1) ELSE {})
   \cup (IF Galaxy(c) THEN Occupation(HodSec(c), "", NGal(c)) ELSE {})
   \cup (IF Galaxy(c) /\ c.obs # "none" /\ Model(c) = "Cacciato" THEN ObsOut(c) ELSE {})
   \cup (IF Asked(c, "gg") THEN Power("galaxy_power", "gg", NGal(c)) \cup Bias("galaxy_linear_bias", "bg_linear", "gg", NGal(c)) ELSE {})
   \cup (IF Asked(c, "gm") THEN Power("matter_galaxy_power", "gm", NGal(c)) \cup Bias("galaxy_matter_linear_bias", "bgm_linear", "gm", NGal(c)) ELSE {})
   \cup (IF Align(c) THEN Occupation(IaHodSec(c), "@ia", NIa(c)) ELSE {})
   \cup (IF Asked(c, "ii") THEN Power("intrinsic_power", "ii", NIa(c)) ELSE {})
   \cup (IF Asked(c, "gi") THEN Power("galaxy_intrinsic_power", "gi", NIa(c)) ELSE {})
   \cup (IF Asked(c, "mi") THEN Power("matter_intrinsic_power", "mi", NIa(c)) ELSE {})
\* sections about which nothing is said: the observable function is only promised together with a galaxy sample, and
\* without one the occupation of a default sample may be reported
MayWrite(c) == (IF Galaxy(c) THEN {} ELSE {HodSec(c), ObsSec(c)})
-----------------------------------------------------------------------------
\* every output has one source; results of different samples never share a place; every parameter has one source
OneEach(c) == /\ \A o1, o2 \in Outputs(c) : (o1.s = o2.s /\ o1.n = o2.n) => o1 = o2
              /\ \A x, y \in Sources(c) : x.p = y.p => x = y
\* a spectrum that was not asked for has no section; matter power stays as supplied in response mode
PowerSecs == {<<"mm", "matter_power_nl">>, <<"gg", "galaxy_power">>, <<"gm", "matter_galaxy_power">>, <<"ii", "intrinsic_power">>,
              <<"gi", "galaxy_intrinsic_power">>, <<"mi", "matter_intrinsic_power">>}
OnlyAsked(c) == \A x \in PowerSecs : (~Asked(c, x[1]) \/ (x[1] = "mm" /\ Resp(c))) =>
                   \A o \in Outputs(c) : o.s # x[2] /\ \A b \in 1..3 : o.s # x[2] \o "_" \o ToString(b)
=============================================================================
