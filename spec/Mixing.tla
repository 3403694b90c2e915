------------------------------- MODULE Mixing -------------------------------
(***************************************************************************)
(* The combined model of two galaxy populations: what it reports at each   *)
(* output wavenumber and redshift in terms of the spectra of the two       *)
(* populations on their own grids.                                         *)
(* Axes: b sample, z/k output grid, s/q redshift and wavenumber grid of a  *)
(* population, f nodes of the fraction.                                    *)
(***************************************************************************)
EXTENDS Expr
MixSpectra == <<"mm", "gg", "gm", "mi", "ii", "gi">>
MixParts == <<"1h", "2h", "tot">>
MixQs == {s \o "." \o p : s \in {MixSpectra[n] : n \in DOMAIN MixSpectra}, p \in {MixParts[n] : n \in DOMAIN MixParts}}
MixLeafAx == [n \in {p \o q : p \in {"1.", "2."}, q \in MixQs \cup {"z", "lgk"}} \cup {"zout", "lgkout", "fz", "frac"} |->
   CASE n \in {"1.z", "2.z"} -> {"s"} [] n \in {"1.lgk", "2.lgk"} -> {"q"} [] n = "zout" -> {"z"} [] n = "lgkout" -> {"k"}
     [] n \in {"fz", "frac"} -> {"f"} [] OTHER -> {"b", "s", "q"}]
\* pop2: there is a second population; own2: it has its own redshifts and wavenumbers; frac: none, constant, varying;
\* ext: how the spectra are continued in redshift; grid: the output grid is the model's, next to it, inside it, or beyond it;
\* via: the first population given as an object or as parameters; mode: which model
MixCfgs == {c \in [pop2 : {"T", "F"}, own2 : {"T", "F"}, frac : {"none", "const", "vary"}, ext : {"ext", "v0.0", "v3.5", "p1.5,-2"},
                   grid : {"same", "near", "inside", "beyond"}, via : {"object", "params"}, mode : {"plain", "hmcode", "response"}] :
              (c.own2 = "T" => c.pop2 = "T")}
\* linear in redshift, then linear in log wavenumber
OnOutput(c, p, sp) == Interp("ext", "q", "k", L(p \o "lgk"), L("lgkout"),
                             Interp(c.ext, "s", "z", L(p \o "z"), L("zout"), L(p \o sp)))
Frac(c) == IF c.frac = "none" THEN One ELSE Interp("ext", "f", "z", L("fz"), L("zout"), L("frac"))
Legs(s) == CASE s = "mm" -> 0 [] s \in {"gm", "mi"} -> 1 [] OTHER -> 2
RECURSIVE ToThe(_, _)
ToThe(x, n) == IF n = 1 THEN x ELSE Mul(<<x, ToThe(x, n - 1)>>)
Mixed(s, part, c) ==
   LET q == s \o "." \o part  f == Frac(c)  n == Legs(s)  p1 == OnOutput(c, "1.", q) IN
   IF n = 0 THEN p1
   ELSE IF c.frac = "none" THEN p1
   ELSE IF c.pop2 = "F" THEN Mul(<<ToThe(f, n), p1>>)
   ELSE Add(<<Mul(<<ToThe(f, n), p1>>), Mul(<<ToThe(Sub(One, f), n), OnOutput(c, "2.", q)>>)>>)
MixTerm(q, c) ==
   IF q = "frac_1" THEN Frac(c)
   ELSE IF q = "frac_2" THEN (IF c.frac = "none" THEN Zero ELSE Sub(One, Frac(c)))
   ELSE LET s == CHOOSE x \in {MixSpectra[n] : n \in DOMAIN MixSpectra} : \E n \in DOMAIN MixParts : q = x \o "." \o MixParts[n]
            p == CHOOSE y \in {MixParts[n] : n \in DOMAIN MixParts} : q = s \o "." \o y
        IN Mixed(s, p, c)
MixQSeq(c) == SetToSeq(MixQs \cup {"frac_1", "frac_2"})
MixOutAx(q) == IF q \in {"frac_1", "frac_2"} THEN {"z"} ELSE {"b", "z", "k"}
IsSecond(n) == n \in {"2." \o q : q \in MixQs}
\* the second population never enters the matter spectrum nor anything without a fraction; with a fraction of one everything is
\* the first population: its weight is the fraction to the number of galaxy legs, that of the second the complement likewise
MixSound(c) == /\ \A n \in DOMAIN MixParts : \A x \in LeavesOf(Mixed("mm", MixParts[n], c)) : ~IsSecond(x) /\ x # "frac"
               /\ c.frac = "none" => \A q \in MixQs : \A x \in LeavesOf(MixTerm(q, c)) : ~IsSecond(x)
               /\ (c.frac # "none" /\ c.pop2 = "T") => \A n \in DOMAIN MixSpectra : Legs(MixSpectra[n]) > 0 =>
                     LET e == Mixed(MixSpectra[n], "tot", c) IN
                       Occur(e, Frac(c)) = 2 * Legs(MixSpectra[n]) /\ \E x \in LeavesOf(e) : IsSecond(x)
=============================================================================
