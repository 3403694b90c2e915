----------------------------- MODULE Ingredients -----------------------------
(***************************************************************************)
(* The halo ingredients: which library model, at which settings, each      *)
(* ingredient is read from.  A setting of the library is a user parameter  *)
(* (leaf), a fixed choice of the calibrated sets (text or number) or an    *)
(* expression of the cosmology.                                            *)
(* Axes: z redshift, M mass, k wavenumber, h wavenumber of the library.    *)
(***************************************************************************)
EXTENDS Expr
IngCfgs == [ingr : {"None", "fit", "mead2020", "mead2020_feedback"}, mdef : {"SOMean", "SOCritical", "SOVirial"}, cls : {"ingredients", "spectra"}]
Calibrated(c) == c.ingr \in {"mead2020", "mead2020_feedback"}
Text(s) == E("text", s, <<>>)
As(name, e) == E("set", name, <<e>>)
\* user parameters that reach the library as they are
Own == <<"lnk_min", "lnk_max", "dlnk", "Mmin", "Mmax", "dlog10m", "sigma_8", "n_s", "transfer_model", "transfer_params", "growth_model", "growth_params">>
CosmoOwn == <<"h0", "omega_c", "omega_b", "Neff", "m_nu", "tcmb", "w0", "wa">>
Texts == {"transfer_model", "transfer_params", "growth_model", "growth_params", "hmf_model", "bias_model", "prof_cen", "prof_sat", "cm_cen", "cm_sat"}
ZLeaves == {"z", "norm_cen", "norm_sat", "eta_cen", "eta_sat", "Om(z)", "Onu(z)", "g", "G", "mead_g", "mead_G"}
KLeaves == {"k_vec"}
IngLeafAx == [n \in Texts \cup ZLeaves \cup KLeaves \cup {Own[j] : j \in DOMAIN Own} \cup {CosmoOwn[j] : j \in DOMAIN CosmoOwn}
                    \cup {"overdensity", "delta_c", "log10T_AGN", "Om0", "Onu0"} |->
               IF n \in ZLeaves THEN {"z"} ELSE IF n \in KLeaves THEN {"k"} ELSE {}]
-----------------------------------------------------------------------------
\* collapse threshold and overdensity
PiC == C("3.14159265358979323846")
DcEdS == Mul(<<Div(C("3"), C("20")), Pow(Mul(<<C("12"), PiC>>), Div(C("2"), C("3")))>>)
A == Div(One, Add(<<One, L("z")>>))
Fit(p) == LET x == Div(L("g"), A)  y == Div(L("G"), A) IN
   Add(<<C(p[1]), Mul(<<C(p[2]), Sub(One, x)>>), Mul(<<C(p[3]), Sq(Sub(One, x))>>), Mul(<<C(p[4]), Sub(One, y)>>)>>)
LgOm == Log10(Add(<<L("Om(z)"), L("Onu(z)")>>))
FNu == Div(L("Onu0"), Add(<<L("Om0"), L("Onu0")>>))
DcMead == Mul(<<DcEdS, Sub(One, Mul(<<C("0.041"), FNu>>)),
                Add(<<One, Mul(<<Fit(<<"-0.0069", "-0.0208", "0.0312", "0.0021">>), LgOm>>), Fit(<<"0.0001", "-0.0647", "-0.0417", "0.0646">>)>>)>>)
DvMead == Mul(<<C("18"), Sq(PiC), Add(<<One, Mul(<<C("0.763"), FNu>>)>>),
                Add(<<One, Mul(<<Fit(<<"-0.79", "-10.17", "2.51", "6.51">>), LgOm>>), Mul(<<Fit(<<"-1.89", "0.38", "18.8", "-15.87">>), Sq(LgOm)>>)>>)>>)
DcVirial == Mul(<<DcEdS, Add(<<One, Mul(<<C("0.0123"), Log10(L("Om(z)"))>>)>>)>>)
Dc(c) == IF Calibrated(c) THEN DcMead ELSE IF c.mdef = "SOVirial" THEN DcVirial ELSE L("delta_c")
Theta == Sub(L("log10T_AGN"), C("7.8"))
KNorm(c) == IF c.ingr = "mead2020" THEN C("5.196")
            ELSE Mul(<<Div(C("5.196"), C("4")), Sub(C("3.44"), Mul(<<C("0.496"), Theta>>)),
                       Ten(Mul(<<L("z"), Sub(C("-0.0671"), Mul(<<C("0.0371"), Theta>>))>>))>>)
-----------------------------------------------------------------------------
\* settings of the library model of role r ("cen", "sat"); eta is left out (<<>>) for what does not depend on the profile
Named(s) == [j \in DOMAIN s |-> As(s[j], L(s[j]))]
Settings(c, r, eta) ==
   Named(Own) \o Named(CosmoOwn) \o <<As("z", L("z")), As("delta_c", Dc(c)),
      As("hmf_model", IF Calibrated(c) THEN Text("ST") ELSE L("hmf_model")), As("bias_model", IF Calibrated(c) THEN Text("ST99") ELSE L("bias_model")),
      As("profile", L("prof_" \o r)), As("concentration", IF Calibrated(c) THEN Text("Bullock01") ELSE L("cm_" \o r)),
      As("norm", L("norm_" \o r)), As("mdef_model", IF Calibrated(c) THEN Text("SOMean") ELSE Text(c.mdef)),
      As("convert_mass", Text(IF Calibrated(c) THEN "no" ELSE "yes"))>>
   \o (IF Calibrated(c) THEN <<As("overdensity", DvMead), As("K", KNorm(c))>>
       ELSE IF c.mdef = "SOVirial" THEN <<>> ELSE <<As("overdensity", L("overdensity"))>>)
   \o eta
Lib(c, r, attr, axes) == Via("y", axes, "lib " \o attr, Settings(c, r, <<>>))
Lib0(c, attr, axes) == Via("z", axes, "lib " \o attr, Settings(c, "cen", <<>>))     \* the same at all redshifts
Eta(c, r) == IF Calibrated(c) THEN Mul(<<C("0.1281"), Pow(Lib(c, r, "sigma8_z", "z"), C("-0.3644"))>>) ELSE L("eta_" \o r)
Prof(c, r, attr, axes) == Via("y", axes, "lib " \o attr, Settings(c, r, <<As("eta", Eta(c, r))>>))
Fourier(c, r) == Via("y", "zkM", "lib u", Settings(c, r, <<As("eta", Eta(c, r)), As("k_vec", L("k_vec"))>>))
IngNames == {"mass", "power", "nonlinear_power", "kh", "halo_overdensity_mean", "nu", "dndlnm", "mean_density0", "mean_density_z", "rho_halo", "halo_bias", "neff", "sigma8_z", "fnu", "growth_factor", "omega_m", "conc_cen", "conc_sat", "nfw_cen", "nfw_sat", "u_dm", "u_sat", "r_s_cen", "r_s_sat", "rvir_cen", "rvir_sat", "scale_factor", "dc_Mead", "Dv_Mead", "get_mead_growth", "get_mead_accumulated_growth"}
IngTerm(q, c) ==
   CASE q = "mass" -> Lib0(c, "m", "M")
     [] q = "power" -> Lib(c, "cen", "power", "zh")
     [] q = "nonlinear_power" -> Lib(c, "cen", "nonlinear_power", "zh")
     [] q = "kh" -> Lib0(c, "k", "h")
     [] q = "halo_overdensity_mean" -> Lib(c, "cen", "halo_overdensity_mean", "z")
     [] q = "nu" -> Sqrt(Lib(c, "cen", "nu", "zM"))
     [] q = "dndlnm" -> Lib(c, "cen", "dndlnm", "zM")
     [] q = "mean_density0" -> Lib(c, "cen", "mean_density0", "z")
     [] q = "mean_density_z" -> Lib(c, "cen", "mean_density", "z")
     [] q = "rho_halo" -> Mul(<<Lib(c, "cen", "halo_overdensity_mean", "z"), Lib(c, "cen", "mean_density0", "z")>>)
     [] q = "halo_bias" -> Lib(c, "cen", "halo_bias", "zM")
     [] q = "neff" -> Lib(c, "cen", "n_eff_at_collapse", "z")
     [] q = "sigma8_z" -> Lib(c, "cen", "sigma8_z", "z")
     [] q = "fnu" -> Div(L("Onu0"), L("Om0"))
     [] q = "growth_factor" -> Lib(c, "cen", "growth_factor", "z")
     [] q = "omega_m" -> Add(<<L("omega_c"), L("omega_b")>>)
     [] q = "conc_cen" -> Prof(c, "cen", "cmz_relation", "zM")
     [] q = "conc_sat" -> Prof(c, "sat", "cmz_relation", "zM")
     [] q = "nfw_cen" -> Fourier(c, "cen")
     [] q = "nfw_sat" -> Fourier(c, "sat")
     [] q = "u_dm" -> Div(Fourier(c, "cen"), At0("k", Fourier(c, "cen")))
     [] q = "u_sat" -> Div(Fourier(c, "sat"), At0("k", Fourier(c, "sat")))
     [] q = "r_s_cen" -> Prof(c, "cen", "r_s", "zM")
     [] q = "r_s_sat" -> Prof(c, "sat", "r_s", "zM")
     [] q = "rvir_cen" -> Prof(c, "cen", "rvir", "zM")
     [] q = "rvir_sat" -> Prof(c, "sat", "rvir", "zM")
     [] q = "scale_factor" -> A
     [] q = "dc_Mead" -> DcMead
     [] q = "Dv_Mead" -> DvMead
     [] q = "get_mead_growth" -> L("mead_g")
     [] q = "get_mead_accumulated_growth" -> L("mead_G")
IngNameSeq == SetToSeq(IngNames)
IngQSeq(c) == IngNameSeq
IngOutAx(q) ==
   CASE q \in {"mass"} -> {"M"} [] q \in {"power", "nonlinear_power"} -> {"z", "h"} [] q = "kh" -> {"h"} [] q \in {"fnu", "omega_m"} -> {}
     [] q \in {"nfw_cen", "nfw_sat", "u_dm", "u_sat"} -> {"z", "k", "M"}
     [] q \in {"nu", "dndlnm", "halo_bias", "conc_cen", "conc_sat", "r_s_cen", "r_s_sat", "rvir_cen", "rvir_sat"} -> {"z", "M"}
     [] q = "mass" -> {"M"} [] OTHER -> {"z"}
-----------------------------------------------------------------------------
Of(q, c) == LeavesOf(IngTerm(q, c))
SatQs == {"conc_sat", "nfw_sat", "u_sat", "r_s_sat", "rvir_sat"}
\* satellites use their own profile settings and only they do; the calibrated sets do not use the user's abundance, bias,
\* concentration, threshold, overdensity or bloating; the feedback temperature enters only with feedback, and only the concentration;
\* the virial definition does not use the given threshold and overdensity
IngSound(c) ==
   /\ \A q \in IngNames :
        /\ q \in SatQs => Of(q, c) \cap {"prof_cen", "cm_cen", "norm_cen", "eta_cen"} = {} /\ {"prof_sat", "norm_sat"} \subseteq Of(q, c)
        /\ q \notin SatQs => Of(q, c) \cap {"prof_sat", "cm_sat", "norm_sat", "eta_sat"} = {}
        /\ Calibrated(c) => Of(q, c) \cap {"hmf_model", "bias_model", "cm_cen", "cm_sat", "eta_cen", "eta_sat", "delta_c", "overdensity"} = {}
        /\ c.ingr # "mead2020_feedback" => "log10T_AGN" \notin Of(q, c)
        /\ (c.mdef = "SOVirial") => Of(q, c) \cap {"delta_c", "overdensity"} = {}
   /\ c.ingr = "mead2020_feedback" => "log10T_AGN" \in Of("u_dm", c) /\ "log10T_AGN" \in Of("u_sat", c)
=============================================================================
