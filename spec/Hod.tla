-------------------------------- MODULE Hod --------------------------------
(***************************************************************************)
(* Halo occupation: what every occupation quantity of every model is, in   *)
(* terms of the halo mass function, halo bias, sample ranges and model     *)
(* parameters.                                                             *)
(*                                                                         *)
(* Axes: b sample, t redshift of the sample's own grid, z model redshift,  *)
(* M halo mass, o observable.  A quantity is computed on the sample's own  *)
(* redshifts (mass function and bias carried there linearly) and carried   *)
(* to the model redshifts by linear interpolation.                         *)
(***************************************************************************)
EXTENDS Expr
HodModels == {"Cacciato", "Zheng", "Zhai", "Simple", "Zehavi"}
Scalar == {"log10_obs_norm_c", "log10_m_ch", "g1", "g2", "sigma_log10_O_c", "norm_s", "pivot", "alpha_s", "beta_s",
           "b0", "b1", "b2", "A_cen", "A_sat", "h"}
PerSample == {"log10_Mmin", "log10_Msat", "log10_M0", "log10_M1", "log10_Mcut", "sigma", "alpha"}
HodLeafAx == [n \in Scalar \cup PerSample \cup {"M", "dn", "bias", "O", "zs", "z"} |->
   CASE n \in Scalar -> {} [] n \in PerSample -> {"b"} [] n = "M" -> {"M"} [] n \in {"dn", "bias"} -> {"z", "M"}
     [] n = "O" -> {"b", "t", "o"} [] n = "zs" -> {"b", "t"} [] n = "z" -> {"z"}]

\* configurations: model; dc, ds: assembly bias of centrals/satellites; src: sample ranges given directly, by a file, or left to the defaults;
\* unit of the observable; share: parameters given once (T) or per sample; out: some model redshifts outside the sample's range;
\* via: the class itself or a Spectra object
HodCfgs == {c \in [model : HodModels, dc : {"T", "F"}, ds : {"T", "F"}, src : {"direct", "file", "default"}, unit : {"1/h", "1/h^2"},
                   share : {"T", "F"}, out : {"T", "F"}, via : {"class", "spectra"}] :
              /\ (c.model = "Cacciato" => c.share = "T")
              /\ (c.model # "Cacciato" => c.unit = "1/h^2")
              /\ (c.src = "default" => c.via = "class" /\ c.unit = "1/h^2" /\ c.dc = c.ds)
              /\ (c.via = "spectra" => c.dc = c.ds /\ c.out = "F")}

Mmin == Ten(L("log10_Mmin"))
Erfc2 == Mul(<<C("0.5"), Add(<<One, Erf(Div(Log10(Div(L("M"), Mmin)), L("sigma")))>>)>>)
StepCen == Step(Sub(L("M"), Mmin))
\* conditional observable function: lognormal for centrals, modified Schechter for satellites
X == Div(L("M"), Ten(L("log10_m_ch")))
MeanObs == Div(Mul(<<Ten(L("log10_obs_norm_c")), Pow(X, L("g1"))>>), Pow(Add(<<One, X>>), Sub(L("g1"), L("g2"))))
Root2PiLn10 == C("5.771724898842726")      \* sqrt(2 pi) ln 10
CofCen == Div(Exp(Neg(Div(Sq(Log10(Div(L("O"), MeanObs))), Mul(<<C("2"), Sq(L("sigma_log10_O_c"))>>)))),
              Mul(<<Root2PiLn10, L("sigma_log10_O_c"), L("O")>>))
ObsStar == Mul(<<L("norm_s"), MeanObs>>)
LogMp == Sub(Log10(L("M")), L("pivot"))
PhiStar == Ten(Add(<<L("b0"), Mul(<<L("b1"), LogMp>>), Mul(<<L("b2"), Sq(LogMp)>>)>>))
CofSat == LET x == Div(L("O"), ObsStar) IN
          Mul(<<Div(PhiStar, ObsStar), Pow(x, L("alpha_s")), Exp(Neg(Pow(x, L("beta_s"))))>>)
Cof == Add(<<CofCen, CofSat>>)
IntO(x) == Simpson("o", L("O"), x)

PlainCen(c) == CASE c.model = "Cacciato" -> IntO(CofCen)
                 [] c.model \in {"Zheng", "Zhai"} -> If0(L("sigma"), StepCen, Erfc2)
                 [] OTHER -> StepCen
\* assembly bias moves centrals between halo populations without exceeding one per halo
Cen(c) == LET n == PlainCen(c) IN
          IF c.dc = "T" THEN Add(<<n, Mul(<<L("A_cen"), MinOf(n, Sub(One, n))>>)>>) ELSE n
PlainSat(c) ==
   CASE c.model = "Cacciato" -> IntO(CofSat)
     [] c.model = "Zheng" -> Pow(Div(Mul(<<Step(Sub(L("M"), Ten(L("log10_M0")))), Sub(L("M"), Ten(L("log10_M0")))>>),
                                     Ten(L("log10_M1"))), L("alpha"))
     [] c.model = "Zhai" -> Mul(<<Pow(Div(L("M"), Ten(L("log10_Msat"))), L("alpha")),
                                  Exp(Neg(Div(Ten(L("log10_Mcut")), L("M"))))>>)
     [] c.model = "Zehavi" -> Pow(Div(L("M"), Ten(L("log10_Msat"))), L("alpha"))
     [] c.model = "Simple" -> Mul(<<Cen(c), Pow(Div(L("M"), Ten(L("log10_Msat"))), L("alpha"))>>)
Sat(c) == LET n == PlainSat(c) IN IF c.ds = "T" THEN Add(<<n, Mul(<<L("A_sat"), n>>)>>) ELSE n
Tot(c) == Add(<<Cen(c), Sat(c)>>)

ToSample(x) == Interp("ext", "z", "t", L("z"), L("zs"), x)
ToModel(mode, x) == Interp(mode, "t", "z", L("zs"), L("z"), x)
Dn == ToSample(L("dn"))
B == ToSample(L("bias"))
IntMass(x) == Simpson("M", L("M"), x)
Density(n) == IntMass(Div(Mul(<<n, Dn>>), L("M")))
MeanMass(n) == IntMass(Mul(<<n, Dn>>))
Bias(n, c) == Div(IntMass(Div(Mul(<<n, B, Dn>>), L("M"))), Density(Tot(c)))
Stars(f) == Div(IntO(Mul(<<f, L("O")>>)), L("M"))
Unit(c, x) == IF c.unit = "1/h^2" THEN Mul(<<x, L("h")>>) ELSE x
StarFrac(c, f) == IF c.model = "Cacciato" THEN Unit(c, ToModel("ext", Stars(f))) ELSE Zero
ObsFun(f) == IntMass(Div(Mul(<<f, Dn>>), L("M")))

Pop(p, c) == CASE p = "cen" -> Cen(c) [] p = "sat" -> Sat(c) [] OTHER -> Tot(c)
CofOf(p) == CASE p = "cen" -> CofCen [] p = "sat" -> CofSat [] OTHER -> Cof
Ln10O == Mul(<<C("2.302585092994046"), L("O")>>)
HodTerm(q, c) ==
   CASE q = "hod_cen" -> ToModel("ext", Cen(c))
     [] q = "hod_sat" -> ToModel("ext", Sat(c))
     [] q = "hod" -> ToModel("ext", Tot(c))
     [] q = "number_density_cen" -> ToModel("ext", Density(Cen(c)))
     [] q = "number_density_sat" -> ToModel("ext", Density(Sat(c)))
     [] q = "number_density" -> ToModel("ext", Density(Tot(c)))
     [] q = "f_c" -> ToModel("zero", Div(Density(Cen(c)), Density(Tot(c))))
     [] q = "f_s" -> ToModel("zero", Div(Density(Sat(c)), Density(Tot(c))))
     [] q = "avg_halo_mass_cen" -> ToModel("zero", MeanMass(Cen(c)))
     [] q = "avg_halo_mass_sat" -> ToModel("zero", MeanMass(Sat(c)))
     [] q = "avg_halo_mass" -> ToModel("zero", MeanMass(Tot(c)))
     [] q = "galaxy_linear_bias_cen" -> ToModel("ext", Bias(Cen(c), c))
     [] q = "galaxy_linear_bias_sat" -> ToModel("ext", Bias(Sat(c), c))
     [] q = "galaxy_linear_bias" -> ToModel("ext", Bias(Tot(c), c))
     [] q = "stellar_fraction_cen" -> StarFrac(c, CofCen)
     [] q = "stellar_fraction_sat" -> StarFrac(c, CofSat)
     [] q = "stellar_fraction" -> StarFrac(c, Cof)
     [] q = "obs_func_cen" -> ObsFun(CofCen)
     [] q = "obs_func_sat" -> ObsFun(CofSat)
     [] q = "obs_func" -> ObsFun(Cof)
     \* of a Spectra object
     [] q = "fstar" -> StarFrac(c, Cof)
     [] q = "mass_avg" -> Div(ToModel("zero", MeanMass(Cen(c))), ToModel("ext", Density(Tot(c))))
     [] q = "log_obs_func" -> IF c.model = "Cacciato" THEN Mul(<<Ln10O, ObsFun(Cof)>>) ELSE NoVal
     [] q = "log_obs_func_cen" -> IF c.model = "Cacciato" THEN Mul(<<Ln10O, ObsFun(CofCen)>>) ELSE NoVal
     [] q = "log_obs_func_sat" -> IF c.model = "Cacciato" THEN Mul(<<Ln10O, ObsFun(CofSat)>>) ELSE NoVal
     [] q = "obs_func_obs" -> IF c.model = "Cacciato" THEN L("O") ELSE NoVal
     [] q = "obs_func_z" -> IF c.model = "Cacciato" THEN L("zs") ELSE NoVal

Moments == << "hod_cen", "hod_sat", "hod", "number_density_cen", "number_density_sat", "number_density", "f_c", "f_s",
              "avg_halo_mass_cen", "avg_halo_mass_sat", "avg_halo_mass", "galaxy_linear_bias_cen", "galaxy_linear_bias_sat",
              "galaxy_linear_bias" >>
StarQ == << "stellar_fraction_cen", "stellar_fraction_sat", "stellar_fraction" >>
HodQSeq(c) ==
   IF c.via = "spectra"
   THEN Moments \o StarQ \o << "fstar", "mass_avg", "log_obs_func", "log_obs_func_cen", "log_obs_func_sat", "obs_func_obs", "obs_func_z" >>
   ELSE Moments \o StarQ \o (IF c.model = "Cacciato" THEN << "obs_func_cen", "obs_func_sat", "obs_func" >> ELSE <<>>)
HodOutAx(q) == IF q \in {"hod_cen", "hod_sat", "hod", "stellar_fraction_cen", "stellar_fraction_sat", "stellar_fraction", "fstar"}
               THEN {"b", "z", "M"}
               ELSE IF q \in {"obs_func_cen", "obs_func_sat", "obs_func", "log_obs_func", "log_obs_func_cen", "log_obs_func_sat", "obs_func_obs", "obs_func_z"}
               THEN {"b", "t", "o"} ELSE {"b", "z"}
\* satellites do not enter central quantities and conversely; total occupation is the sum
SatLeaves == {"alpha", "log10_Msat", "log10_M0", "log10_M1", "log10_Mcut", "A_sat", "norm_s", "alpha_s", "beta_s", "b0", "b1", "b2", "pivot"}
HodSound(c) == /\ LeavesOf(Cen(c)) \cap SatLeaves = {}
               /\ c.model # "Simple" => LeavesOf(Sat(c)) \cap {"A_cen", "sigma", "sigma_log10_O_c", "log10_Mmin"} = {}
               /\ Tot(c) = Add(<<Cen(c), Sat(c)>>)
               /\ HodTerm("number_density", c) = ToModel("ext", Density(Add(<<Cen(c), Sat(c)>>)))
               /\ c.dc = "F" => "A_cen" \notin LeavesOf(Tot(c))
               /\ ("h" \in LeavesOf(HodTerm("stellar_fraction", c))) <=> (c.unit = "1/h^2" /\ c.model = "Cacciato")
=============================================================================
