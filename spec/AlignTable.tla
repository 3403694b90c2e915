----------------------------- MODULE AlignTable -----------------------------
(***************************************************************************)
(* The parameters of the alignment calculators (ia.py) and the valuations  *)
(* that can be evaluated.  Values "s" of the halo arrays have a different  *)
(* number of masses, so they only go together.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences

APOrder == << "z_vec", "central_ia_depends_on", "satellite_ia_depends_on", "method",
             "gamma_2h_amplitude", "beta_cen", "beta_two", "gamma_1h_amplitude", "gamma_1h_slope", "beta_sat",
             "mpivot_cen", "mpivot_sat", "lpivot_cen", "lpivot_sat", "z_loglum_file_centrals", "z_loglum_file_satellites",
             "nmass", "nk", "ell_max", "n_hankel", "truncate", "mass_in", "c_in", "r_s_in", "rvir_in" >>
AParams == {APOrder[i] : i \in DOMAIN APOrder}
Laws == {"central_ia_depends_on", "satellite_ia_depends_on"}
Halo == {"mass_in", "c_in", "r_s_in", "rvir_in"}
Files == {"z_loglum_file_centrals", "z_loglum_file_satellites"}
ABase == [p \in AParams |->
   CASE p \in Laws -> "halo_mass"
     [] p = "method" -> "fftlog"
     [] p \in {"beta_two", "lpivot_cen", "lpivot_sat"} \cup Files -> "None"
     [] OTHER -> "b"]
AAlts == [p \in AParams |->
   \* "n", "xn": next to the values "b", "x"
   CASE p \in Laws -> {"constant", "luminosity"}
     [] p = "method" -> {"hankel"}
     [] p \in {"beta_two", "lpivot_cen", "lpivot_sat"} -> {"x", "y", "xn", "z"}
     [] p \in Files -> {"x", "y"}
     [] p \in {"mpivot_cen", "mpivot_sat"} -> {"a", "n", "None"}
     [] p = "gamma_1h_slope" -> {"a", "c", "n"}
     [] p \in Halo -> {"a", "s", "n", "i"}
     [] p = "z_vec" -> {"a", "n", "i"}
     [] p \in {"gamma_2h_amplitude", "beta_cen", "gamma_1h_amplitude", "beta_sat"} -> {"a", "n"}
     [] OTHER -> {"a"}]
ADictKeys == <<>>

Evaluable(v) ==
  /\ v["central_ia_depends_on"] = "luminosity" => v["lpivot_cen"] # "None" /\ v["z_loglum_file_centrals"] # "None"
  /\ v["satellite_ia_depends_on"] = "luminosity" => v["lpivot_sat"] # "None" /\ v["z_loglum_file_satellites"] # "None"
  /\ v["central_ia_depends_on"] = "halo_mass" => v["mpivot_cen"] # "None" /\ v["beta_two"] = "None"
  /\ v["satellite_ia_depends_on"] = "halo_mass" => v["mpivot_sat"] # "None"
  /\ (\A p \in Halo : v[p] = "s") \/ (\A p \in Halo : v[p] # "s")

AJoints == << << <<"beta_cen", "a">>, <<"beta_sat", "ja">> >>, << <<"mpivot_cen", "a">>, <<"mpivot_sat", "ja">> >>,
              << <<"mass_in", "a">>, <<"c_in", "a">>, <<"r_s_in", "a">>, <<"rvir_in", "a">> >>,
              << <<"nmass", "a">>, <<"nk", "j">> >> >>
AProfiles ==
  << << >>,
     << <<"central_ia_depends_on", "luminosity">>, <<"lpivot_cen", "x">>, <<"z_loglum_file_centrals", "x">>,
        <<"satellite_ia_depends_on", "constant">> >>,
     << <<"central_ia_depends_on", "luminosity">>, <<"lpivot_cen", "x">>, <<"z_loglum_file_centrals", "x">>, <<"beta_two", "x">>,
        <<"satellite_ia_depends_on", "luminosity">>, <<"lpivot_sat", "x">>, <<"z_loglum_file_satellites", "x">> >>,
     << <<"method", "hankel">>, <<"central_ia_depends_on", "constant">>, <<"mpivot_cen", "None">> >>,
     << <<"method", "hankel">>, <<"satellite_ia_depends_on", "luminosity">>, <<"lpivot_sat", "y">>, <<"z_loglum_file_satellites", "y">>,
        <<"gamma_1h_slope", "a">>, <<"mpivot_sat", "None">> >>,
     << <<"mass_in", "s">>, <<"c_in", "s">>, <<"r_s_in", "s">>, <<"rvir_in", "s">>, <<"truncate", "a">>, <<"method", "hankel">> >>,
     << <<"mass_in", "s">>, <<"c_in", "s">>, <<"r_s_in", "s">>, <<"rvir_in", "s">>, <<"gamma_1h_slope", "c">> >> >>
AGroups == << "all", "amp", "lum", "grid", "wkm", "up", "rev" >>
=============================================================================
