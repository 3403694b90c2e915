------------------------------ MODULE BnlTable ------------------------------
(* The parameters of NonLinearBias (bnl.py) for sessions: inside ("b", "a"), below ("l") and above ("h") the supported range, and next to "b" ("n"). *)
EXTENDS Naturals, Sequences
NPOrder == << "mass", "z_vec", "k_vec", "h0", "sigma_8", "A_s", "omega_b", "omega_c", "omega_lambda", "n_s", "w0", "z_dep" >>
NParams == {NPOrder[i] : i \in DOMAIN NPOrder}
NBase == [p \in NParams |-> CASE p = "A_s" -> "None" [] p = "z_dep" -> "F" [] OTHER -> "b"]
NAlts == [p \in NParams |->
   CASE p = "A_s" -> {"x", "y", "h"}
     [] p = "z_dep" -> {"T"}
     [] p = "sigma_8" -> {"a", "h", "n", "None"}
     [] p \in {"mass", "z_vec", "k_vec"} -> {"a", "n", "i"}
     [] p = "h0" -> {"a", "n"}
     [] OTHER -> {"a", "l", "h", "n"}]
NDictKeys == <<>>
Evaluable(v) == v["A_s"] = "None" => v["sigma_8"] # "None"
NJoints == << << <<"omega_b", "j">>, <<"omega_c", "j">> >>, << <<"h0", "a">>, <<"omega_b", "jh">>, <<"omega_c", "jh">> >> >>
NProfiles == << << >>, << <<"A_s", "x">> >>, << <<"A_s", "y">>, <<"sigma_8", "None">> >>, << <<"z_dep", "T">> >>,
                << <<"omega_c", "h">>, <<"w0", "l">>, <<"z_dep", "T">> >>, << <<"A_s", "h">>, <<"sigma_8", "a">> >> >>
NGroups == << "all", "emu", "bnl", "rev" >>
=============================================================================
