------------------------------ MODULE BiasForm ------------------------------
(***************************************************************************)
(* How the non-linear halo bias correction is formed from the spectra of   *)
(* the emulator.                                                           *)
(*                                                                         *)
(* For two halo masses of a table, the halo spectrum less its shot noise   *)
(* is divided by the linear power and the linear biases of the two masses; *)
(* the upper envelope of the ratio, less its value at the reference scale, *)
(* is the correction.  It is switched off below the reference scale and    *)
(* above three times the largest wavenumber resolved for the lightest      *)
(* haloes.  The table is looked up at the nearest masses and wavenumber.   *)
(*                                                                         *)
(* Axes: z redshift, k wavenumber and m, n masses of the result; t         *)
(* wavenumbers and u, v masses of the table; o a single reference scale.   *)
(***************************************************************************)
EXTENDS Expr
BfCfgs == [zdep : {"T", "F"},                                   \* redshift dependence requested
           mass : {"inside", "below", "above", "wide"},         \* the masses relative to the table
           kk : {"inside", "low", "high", "wide"},              \* the wavenumbers relative to the table
           cosmo : {"in", "out"}]                               \* supported cosmology, or one moved to the limits
BfLeafAx == [n \in {"z", "zfix", "lgk", "lgm", "lgm2", "wt", "wu", "Om"} |->
   CASE n = "z" -> {"z"} [] n = "lgk" -> {"k"} [] n = "lgm" -> {"m"} [] n = "lgm2" -> {"n"} [] n = "wt" -> {"t"} [] n = "wu" -> {"u"} [] OTHER -> {}]
Zed(c) == IF c.zdep = "T" THEN L("z") ELSE C("0.01")
\* the table: wavenumbers from 1e-3 to 200, masses from haloes of 200 particles to 1e14, equally spaced in the logarithm
Between(lo, hi, w) == Add(<<lo, Mul(<<Sub(hi, lo), w>>)>>)
LgKt == Between(C("-3"), Log10(C("200")), L("wt"))
Particle == Div(Mul(<<C("2.77536627e11"), L("Om"), Pow(C("1000"), C("3"))>>), Pow(C("2048"), C("3")))
LgMu == Between(Log10(Mul(<<C("200"), Particle>>)), C("14"), L("wu"))
LgMv == Rename("u", "v", LgMu)
Kt == Ten(LgKt)
Mu == Ten(LgMu)
Mv == Rename("u", "v", Mu)
\* the smallest scale at which the lightest haloes are resolved: the Lagrangian radius of 200 particles
Pi == C("3.141592653589793")
RMin == Pow(Div(Mul(<<C("3"), Div(Mul(<<C("200"), Pow(C("1000"), C("3"))>>), Pow(C("2048"), C("3")))>>), Mul(<<C("4"), Pi>>)), Div(C("1"), C("3")))
KMax == Div(Mul(<<C("2"), Pi>>), RMin)
KRef == C("0.05")
Phh(k, m1, m2, c) == Fn("phh", <<k, m1, m2, Zed(c)>>)
Plin(k, c) == Fn("plin", <<k, Zed(c)>>)
Bias(m, c) == Sqrt(Div(Phh(KRef, m, m, c), Plin(KRef, c)))
\* shot noise: mean of the halo spectrum between k = 100 and 200
InWindow == Mul(<<Above(Kt, C("100")), Above(C("200"), Kt)>>)
Shot(c) == Div(SumOver("t", Mul(<<InWindow, Phh(Kt, Mu, Mv, c)>>)), SumOver("t", InWindow))
Ratio(c) == Div(Sub(Phh(Kt, Mu, Mv, c), Shot(c)), Mul(<<Bias(Mu, c), Bias(Mv, c), Plin(Kt, c)>>))
Envelope(new, to, c) == Via("t", new, "envelope", <<Abs(Ratio(c)), Kt, to>>)
Switch(k, k0) == Div(One, Add(<<One, Exp(Mul(<<C("-10"), Sub(Log10(k), Log10(k0))>>))>>))
Table(c) == Mul(<<Sub(Envelope("t", Kt, c), At0("o", Envelope("o", KRef, c))),
                  Switch(Kt, KRef), Switch(Mul(<<C("3"), KMax>>), Kt)>>)
BfTerm(q, c) == CASE q = "mmin" -> Mul(<<C("200"), Particle>>)
   [] q = "kmax" -> KMax
   [] q = "bnl" -> Interp("nearest", "u", "m", LgMu, L("lgm"), Interp("nearest", "v", "n", LgMv, L("lgm2"), Interp("nearest", "t", "k", LgKt, L("lgk"), Table(c))))
BfQSeq(c) == <<"mmin", "kmax", "bnl">>
BfOutAx(q) == IF q = "bnl" THEN {"z", "k", "m", "n"} ELSE {}
\* the two masses enter alike; the redshifts only if requested; nothing depends on the result's own grids but the look-up
RECURSIVE Swapped(_)
Swap1(n) == IF n = "m" THEN "n" ELSE IF n = "n" THEN "m" ELSE n
Swapped(e) == IF e = LgMu THEN LgMv ELSE IF e = LgMv THEN LgMu ELSE IF e = Mu THEN Mv ELSE IF e = Mv THEN Mu
              ELSE [e EXCEPT !.a = [j \in DOMAIN e.a |-> Swapped(e.a[j])]]
RECURSIVE Same(_, _)
Same(x, y) == /\ x.op = y.op /\ x.n = y.n /\ Len(x.a) = Len(y.a)
              /\ \/ \A j \in DOMAIN x.a : Same(x.a[j], y.a[j])
                 \/ /\ x.op \in {"mul", "add"}
                    /\ \A j \in DOMAIN x.a : \E l \in DOMAIN y.a : Same(x.a[j], y.a[l])
                    /\ \A j \in DOMAIN x.a : \E l \in DOMAIN y.a : Same(x.a[l], y.a[j])
                 \/ /\ x.op = "fn" /\ x.n = "phh" /\ Same(x.a[1], y.a[1]) /\ Same(x.a[4], y.a[4])      \* the spectrum of two tracers
                    /\ Same(x.a[2], y.a[3]) /\ Same(x.a[3], y.a[2])
BfSound(c) == /\ Same(Ratio(c), Swapped(Ratio(c)))
              /\ ("z" \in LeavesOf(BfTerm("bnl", c))) <=> c.zdep = "T"
              /\ LeavesOf(Table(c)) \cap {"lgk", "lgm", "lgm2"} = {}
=============================================================================
