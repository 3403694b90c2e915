--------------------------- MODULE UpsampledTable ---------------------------
(***************************************************************************)
(* The parameters of UpsampledSpectra (add.py): output grids, population   *)
(* fraction, the model of the first population (an object, or parameters   *)
(* to build one), and the deviating parameters of the second population    *)
(* ("pop2" = "None": there is no second population).                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

UPlain == << "z", "k", "fraction_z", "extrapolate_option", "model", "fraction", "pop2" >>
UKeys1 == << "_model_1_params.sigma_8", "_model_1_params.z_vec", "_model_1_params.eta_sat", "_model_1_params.nonlinear_mode",
             "_model_1_params.hod_settings", "_model_1_params.k_vec" >>
UKeys2 == << "_model_2_params.sigma_8", "_model_2_params.hod_settings", "_model_2_params.align_params", "_model_2_params.norm_sat",
             "_model_2_params.pointmass" >>
URange(s) == {s[i] : i \in DOMAIN s}
UParams == URange(UPlain) \cup URange(UKeys1) \cup URange(UKeys2)

UBase == [p \in UParams |->
   CASE p \in {"z", "k", "fraction_z", "extrapolate_option"} -> "b"
     [] p = "model" -> "m1"
     [] p \in {"fraction", "pop2"} -> "None"
     [] p \in URange(UKeys1) -> "b"
     [] OTHER -> "-"]
UAlts == [p \in UParams |->
   CASE p = "model" -> {"m2", "None"}
     [] p = "fraction" -> {"x", "y", "xn", "xi"}
     [] p \in {"k", "fraction_z", "_model_1_params.sigma_8", "_model_1_params.z_vec", "_model_1_params.k_vec"} -> IF p = "_model_1_params.sigma_8" THEN {"a", "n"} ELSE {"a", "n", "i"}
     [] p = "pop2" -> {"dict"}
     [] p \in {"_model_2_params.hod_settings", "_model_2_params.sigma_8"} -> {"a", "c"}
     [] p = "z" -> {"a", "c", "n", "i", "m", "mn"}         \* "m": as many as the model has, and near its redshifts
     [] OTHER -> {"a"}]
UDictKeys == [d \in {"_model_2_params"} |-> URange(UKeys2)]

Evaluable(v) == v["pop2"] = "None" => \A p \in URange(UKeys2) : v[p] = "-"

UJoints == << << <<"_model_1_params.sigma_8", "a">>, <<"_model_2_params.sigma_8", "c">>, <<"pop2", "dict">> >>,
              << <<"z", "i">>, <<"_model_1_params.z_vec", "i">> >> >>
UProfiles ==
  << << >>,
     << <<"pop2", "dict">>, <<"fraction", "x">>, <<"_model_2_params.sigma_8", "a">> >>,
     << <<"model", "None">>, <<"pop2", "dict">>, <<"fraction", "y">>, <<"_model_2_params.hod_settings", "a">>, <<"z", "a">> >>,
     << <<"model", "None">>, <<"_model_1_params.sigma_8", "a">>, <<"_model_1_params.nonlinear_mode", "a">> >>,
     << <<"model", "m2">>, <<"fraction", "x">>, <<"z", "c">> >>,
     << <<"pop2", "dict">>, <<"fraction", "y">>, <<"fraction_z", "a">>, <<"extrapolate_option", "a">>, <<"z", "a">>,
        <<"_model_2_params.align_params", "a">>, <<"_model_2_params.pointmass", "a">> >>,
     << <<"pop2", "dict">>, <<"k", "a">>, <<"_model_2_params.norm_sat", "a">> >> >>

UGroups == << "all", "frac", "gg", "gm", "mm", "ia", "rev", "tot", "models" >>
UPOrder == UPlain \o UKeys1 \o UKeys2
=============================================================================
