------------------------------ MODULE HaloModel ------------------------------
(***************************************************************************)
(* What the spectra of a model are: for every option configuration, the    *)
(* one-halo, two-halo and total spectra and the linear bias as expression  *)
(* trees over the public ingredients (leaves).                             *)
(*                                                                         *)
(* Axes: b (galaxy sample), z, k, M (halo mass), N (second halo mass).     *)
(* Each leaf has the axes LeafAxes says; an expression has the union of    *)
(* those of its parts less the axes integrated over or evaluated at.       *)
(*                                                                         *)
(* The trees are data: TLC checks their form here (HaloModelCheck.tla) and *)
(* exports them; vf/hm.py evaluates them with the leaves of the real code  *)
(* and the results are compared with the spectra of the real code.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

\* ------------------------------------------------------------ expressions
E(op, n, a) == [op |-> op, n |-> n, a |-> a]
L(n) == E("leaf", n, <<>>)              \* ingredient
C(n) == E("num", n, <<>>)               \* decimal number
Mul(s) == E("mul", "", s)
Add(s) == E("add", "", s)
Div(x, y) == E("div", "", <<x, y>>)
Sub(x, y) == E("sub", "", <<x, y>>)
Neg(x) == E("mul", "", <<C("-1"), x>>)
Pow(x, y) == E("pow", "", <<x, y>>)
Exp(x) == E("exp", "", <<x>>)
Sqrt(x) == E("sqrt", "", <<x>>)
IntM(x) == E("simpson", "M", <<x>>)     \* Simpson's rule over the mass grid
TrapM(x) == E("trapz", "M", <<x>>)      \* trapezoidal rule
TrapN(x) == E("trapz", "N", <<x>>)
At0(x) == E("at0", "M", <<x>>)          \* at the lightest mass
AtN0(x) == E("at0", "N", <<x>>)
AsN(x) == E("rename", "N", <<x>>)       \* M becomes the second mass
IntLnK(x) == E("simpsonlnk", "k", <<x>>)   \* Simpson's rule in ln k with the first spacing
SmoothK(x) == E("gaussk", "0.25", <<x>>)   \* Gaussian smoothing in ln k
One == C("1")
Sq(x) == Mul(<<x, x>>)

LeafAxes ==
  [n \in {"k", "plin0", "pnl0", "nowiggle", "M", "m0", "dn", "bias", "udm", "usat", "rho", "D", "s8z", "neff", "z",
          "Oc", "Ob", "theta", "mb", "beta", "Nc", "Ns", "nc", "ns", "fc", "fs", "fstar", "fstar_mm", "Mavg",
          "p", "ppivot", "pslope", "k1", "k1ia", "k2ia", "t_eff", "Agi", "wkm", "bcen", "bsat", "mpcen", "mpsat"} |->
     CASE n \in {"k"} -> {"k"}
       [] n \in {"plin0", "pnl0"} -> {"z", "k"}
       [] n = "nowiggle" -> {"k"}
       [] n = "M" -> {"M"}
       [] n \in {"dn", "bias"} -> {"z", "M"}
       [] n \in {"udm", "usat", "wkm"} -> {"z", "k", "M"}
       [] n \in {"rho", "D", "s8z", "neff", "z", "Agi"} -> {"z"}
       [] n = "beta" -> {"z", "k", "M", "N"}
       [] n \in {"Nc", "Ns", "fstar"} -> {"b", "z", "M"}
       [] n = "fstar_mm" -> {"z", "M"}
       [] n \in {"nc", "ns", "fc", "fs", "Mavg"} -> {"b", "z"}
       [] OTHER -> {}]

\* ------------------------------------------------------------ configurations
NLModes == {"None", "bnl", "hmcode", "fortuna"}
Ingredients == {"None", "mead2020", "mead2020_feedback", "fit"}
Flag == {"T", "F"}
\* nl, ing: non-linear correction and ingredient set; resp: response; pm: point mass; dw: dewiggle;
\* t1, t2, t1i, t2i: truncation on; bc, bs: mass scaling of central/satellite alignment; pois: shot noise model;
\* hod: occupation model; plin, pnl: power supplied by the caller
ValidPair(nl, ing) == nl = "hmcode" => ing \in {"mead2020", "mead2020_feedback"}
Mead(c) == c.ing \in {"mead2020", "mead2020_feedback"}

\* ------------------------------------------------------------ linear and non-linear power
Dewiggled(c) == c.nl = "hmcode" \/ c.dw = "T"
SigmaV2 == Div(IntLnK(Mul(<<L("plin0"), L("k")>>)), C("59.21762640653615"))       \* 6 pi^2
Wiggle == Sub(L("plin0"), Mul(<<SmoothK(Div(L("plin0"), L("nowiggle"))), L("nowiggle")>>))
Plin(c) == IF Dewiggled(c)
           THEN Sub(L("plin0"), Mul(<<Sub(One, Exp(Neg(Mul(<<Sq(L("k")), SigmaV2>>)))), Wiggle>>))
           ELSE L("plin0")
Pnl == L("pnl0")
Peff(c) == Add(<<Mul(<<Sub(One, L("t_eff")), Pnl>>), Mul(<<L("t_eff"), Plin(c)>>)>>)

\* ------------------------------------------------------------ truncations
Frac4(x) == Div(Pow(x, C("4")), Add(<<One, Pow(x, C("4"))>>))
Damp(x, f) == LET y == Pow(x, C("2.853")) IN Sub(One, Mul(<<f, Div(y, Add(<<One, y>>))>>))
T1(c) == IF c.t1 = "T" THEN Frac4(Div(L("k"), L("k1"))) ELSE One
T2(c) == IF c.t2 = "T" THEN Damp(Div(L("k"), C("0.05699")), C("0.05")) ELSE One
T1ia(c) == IF c.t1i = "T" THEN Sub(One, Exp(Neg(Sq(Div(L("k"), L("k1ia")))))) ELSE One
T2ia(c) == IF c.t2i = "T" THEN Exp(Neg(Sq(Div(L("k"), L("k2ia"))))) ELSE One
T1mead == Frac4(Div(L("k"), Mul(<<C("0.05618"), Pow(L("s8z"), C("-1.013"))>>)))
T2mead == Damp(Div(L("k"), Mul(<<C("0.05699"), Pow(L("s8z"), C("-1.089"))>>)),
               Mul(<<C("0.2696"), Pow(L("s8z"), C("0.9403"))>>))

\* ------------------------------------------------------------ profiles
Om == Add(<<L("Oc"), L("Ob")>>)
MoverRho == Div(L("M"), L("rho"))
ProfPlain == Mul(<<MoverRho, L("udm")>>)
\* gas fraction given the gas mass scale and the stellar fraction; stars sit in the centre
Gas(m, f) == LET x == Sq(Div(L("M"), m)) IN Mul(<<Sub(Div(L("Ob"), Om), f), Div(x, Add(<<One, x>>))>>)
ProfFed(m, f) == Add(<<Mul(<<Add(<<Div(L("Oc"), Om), Gas(m, f)>>), MoverRho, L("udm")>>), Mul(<<f, MoverRho>>)>>)
MeadStar == Mul(<<C("0.01"), Sub(C("2.01"), Mul(<<C("0.3"), L("theta")>>)),
                  Pow(C("10"), Mul(<<L("z"), Add(<<C("0.409"), Mul(<<C("0.0224"), L("theta")>>)>>)>>))>>)
MeadMb == Pow(C("10"), Add(<<C("13.87"), Mul(<<C("1.81"), L("theta")>>),
                             Mul(<<L("z"), Sub(Mul(<<C("0.195"), L("theta")>>), C("0.108"))>>)>>))
\* matter in the one-halo term of the matter spectrum, and of its cross spectra with galaxies and shapes
Prof1hMM(c) == CASE c.ing = "mead2020_feedback" -> ProfFed(MeadMb, MeadStar)
                 [] c.ing = "mead2020" -> ProfPlain
                 [] c.ing = "fit" -> ProfFed(L("mb"), L("fstar_mm"))
                 [] OTHER -> ProfPlain
Prof1hX(c) == CASE c.ing = "mead2020_feedback" -> ProfFed(MeadMb, MeadStar)
                [] c.ing = "mead2020" -> ProfPlain
                [] c.ing = "fit" \/ c.pm = "T" -> ProfFed(L("mb"), L("fstar"))
                [] OTHER -> ProfPlain
ProfCen == Div(Mul(<<L("fc"), L("Nc")>>), L("nc"))
ProfSat == Div(Mul(<<L("fs"), L("Ns"), L("usat")>>), L("ns"))
C1 == Mul(<<C("5e-14"), L("Agi")>>)
Scaling(on, m, b) == IF on = "T" THEN Pow(Div(L("Mavg"), L(m)), L(b)) ELSE One
AlCen(c) == Mul(<<L("fc"), Div(C1, L("D")), L("M"), Scaling(c.bc, "mpcen", "bcen")>>)
AlSat(c) == Mul(<<L("fs"), L("Ns"), Div(L("wkm"), L("ns")), Scaling(c.bs, "mpsat", "bsat")>>)
Poisson(c) == IF c.pois = "constant" THEN L("p")
              ELSE Mul(<<L("p"), Pow(Div(L("M"), Pow(C("10"), L("ppivot"))), L("pslope"))>>)

\* ------------------------------------------------------------ integrals over mass
W == Div(Mul(<<L("bias"), L("dn")>>), L("M"))
OneHalo(u, v) == IntM(Div(Mul(<<u, v, L("dn")>>), L("M")))
Missing == Sub(One, IntM(Div(Mul(<<L("bias"), L("dn")>>), L("rho"))))     \* mass below the resolved range
Im == Add(<<IntM(Div(Mul(<<L("bias"), L("dn"), L("udm")>>), L("rho"))), Missing>>)
Ig(p) == IntM(Mul(<<W, p>>))
RhoM0 == Div(L("rho"), L("m0"))
Ial(p) == Add(<<Ig(p), Mul(<<Missing, At0(p), RhoM0>>)>>)
\* double integral of the non-linear bias over two profiles, with the unresolved mass at the lightest one
INL(p, q) == Add(<<
   Mul(<<Sq(Missing), At0(AtN0(L("beta"))), At0(p), At0(q), Sq(RhoM0)>>),
   Mul(<<Missing, At0(p), RhoM0, TrapN(Mul(<<At0(L("beta")), AsN(W), AsN(q)>>))>>),
   Mul(<<Missing, At0(q), RhoM0, TrapM(Mul(<<AtN0(L("beta")), W, p>>))>>),
   TrapM(Mul(<<W, p, TrapN(Mul(<<L("beta"), AsN(W), AsN(q)>>))>>)) >>)

\* ------------------------------------------------------------ spectra
R(o, t, tot, b) == [oneh |-> o, twoh |-> t, tot |-> tot, bias |-> b]
NoBias == E("none", "", <<>>)
Zero == E("zero", "", <<>>)
Sum(o, t, b) == R(o, t, Add(<<o, t>>), b)

\* the halo-model matter spectrum (before the response option)
MMhalo(c) ==
  LET p == Prof1hMM(c) IN
  CASE c.nl = "bnl" -> Sum(Mul(<<OneHalo(p, p), T1(c)>>),
                           Mul(<<Plin(c), Add(<<Sq(Im), INL(ProfPlain, ProfPlain)>>)>>), NoBias)
    [] c.nl = "hmcode" ->
         LET o == Mul(<<OneHalo(p, p), T1mead>>)  t == Mul(<<Plin(c), T2mead>>)
             al == Mul(<<C("1.875"), Pow(C("1.603"), L("neff"))>>)
         IN R(o, t, Pow(Add(<<Pow(o, al), Pow(t, al)>>), Div(One, al)), NoBias)
    [] OTHER -> Sum(Mul(<<OneHalo(p, p), T1(c)>>), Mul(<<Plin(c), Sq(Im), T2(c)>>), NoBias)

Ratio(c) == Div(Pnl, MMhalo(c).tot)
Respond(c, r) == IF c.resp = "T"
                 THEN R(Mul(<<r.oneh, Ratio(c)>>), Mul(<<r.twoh, Ratio(c)>>), Mul(<<r.tot, Ratio(c)>>), r.bias)
                 ELSE r
MM(c) == IF c.resp = "T" THEN R(Zero, Zero, Pnl, NoBias) ELSE MMhalo(c)

GGhalo(c) ==
  LET ic == Ig(ProfCen)  is == Ig(ProfSat)
      one == Mul(<<Add(<<Mul(<<C("2"), OneHalo(ProfCen, ProfSat)>>), OneHalo(Mul(<<ProfSat, Poisson(c)>>), ProfSat)>>), T1(c)>>)
      pairs == Add(<<Sq(ic), Sq(is), Mul(<<C("2"), ic, is>>)>>)
      g == Add(<<ProfCen, ProfSat>>)
      two == IF c.nl = "bnl" THEN Mul(<<Plin(c), Add(<<pairs, INL(g, g)>>)>>) ELSE Mul(<<Plin(c), pairs, T2(c)>>)
  IN Sum(one, two, Sqrt(pairs))

GMhalo(c) ==
  LET ig == Add(<<Ig(ProfCen), Ig(ProfSat)>>)
      p == Prof1hX(c)
      one == Mul(<<Add(<<OneHalo(ProfCen, p), OneHalo(ProfSat, p)>>), T1(c)>>)
      two == IF c.nl = "bnl"
             THEN Mul(<<Plin(c), Add(<<Mul(<<ig, Im>>), INL(Add(<<ProfCen, ProfSat>>), ProfPlain)>>)>>)
             ELSE Mul(<<Plin(c), ig, Im, T2(c)>>)
  IN Sum(one, two, Sqrt(Mul(<<ig, Im>>)))

Amp2h == Neg(Div(Mul(<<C1, L("rho")>>), L("D")))

MIhalo(c) ==
  LET ia == Add(<<Ial(AlCen(c)), Ial(AlSat(c))>>)
      one == Neg(Mul(<<OneHalo(Prof1hX(c), AlSat(c)), T1ia(c)>>))
      two == CASE c.nl = "bnl" -> Neg(Mul(<<Plin(c), Add(<<Mul(<<ia, Im>>), INL(Add(<<AlCen(c), AlSat(c)>>), ProfPlain)>>)>>))
               [] c.nl = "fortuna" -> Mul(<<L("fc"), Peff(c), Amp2h, T2ia(c)>>)
               [] OTHER -> Neg(Mul(<<Plin(c), ia, Im, T2ia(c)>>))
  IN Sum(one, two, NoBias)

IIhalo(c) ==
  LET ic == Ial(AlCen(c))  is == Ial(AlSat(c))
      one == Mul(<<OneHalo(AlSat(c), AlSat(c)), T1ia(c)>>)
      pairs == Add(<<Sq(ic), Sq(is), Mul(<<ic, is>>)>>)
      two == CASE c.nl = "bnl" -> Mul(<<Plin(c), Add(<<pairs, INL(AlCen(c), AlCen(c)), INL(AlSat(c), AlSat(c)),
                                                       INL(AlCen(c), AlSat(c))>>)>>)
               [] c.nl = "fortuna" -> Mul(<<Sq(L("fc")), Peff(c), Sq(Amp2h), T2ia(c)>>)
               [] OTHER -> Mul(<<Plin(c), pairs, T2ia(c)>>)
  IN Sum(one, two, NoBias)

GIhalo(c) ==
  LET ic == Ig(ProfCen)
      one == Mul(<<OneHalo(ProfCen, AlSat(c)), T1ia(c)>>)
      two == CASE c.nl = "bnl" -> Mul(<<Plin(c), Add(<<Mul(<<ic, Add(<<Ial(AlCen(c)), Ial(AlSat(c))>>)>>),
                                                       INL(AlCen(c), ProfCen), INL(AlSat(c), ProfCen)>>)>>)
               [] c.nl = "fortuna" -> Neg(Mul(<<Peff(c), ic, Amp2h, T2ia(c)>>))
               [] OTHER -> Mul(<<Plin(c), ic, Add(<<Ial(AlCen(c)), Ial(AlSat(c))>>), T2ia(c)>>)
  IN Sum(one, two, NoBias)

Spectra == {"mm", "gg", "gm", "mi", "ii", "gi"}
Halo(s, c) == CASE s = "mm" -> MMhalo(c) [] s = "gg" -> GGhalo(c) [] s = "gm" -> GMhalo(c)
                [] s = "mi" -> MIhalo(c) [] s = "ii" -> IIhalo(c) [] s = "gi" -> GIhalo(c)
Terms(s, c) == IF s = "mm" THEN MM(c) ELSE Respond(c, Halo(s, c))
Parts == {"oneh", "twoh", "tot", "bias"}

\* ------------------------------------------------------------ analysis of expressions
RECURSIVE Axes(_), Leaves(_), Sign(_), Count(_, _)
Axes(e) ==
   CASE e.op = "leaf" -> LeafAxes[e.n]
     [] e.op \in {"simpson", "trapz", "at0", "simpsonlnk"} -> Axes(e.a[1]) \ {e.n}
     [] e.op = "rename" -> (Axes(e.a[1]) \ {"M"}) \cup (IF "M" \in Axes(e.a[1]) THEN {"N"} ELSE {})
     [] OTHER -> UNION {Axes(e.a[i]) : i \in DOMAIN e.a}
Leaves(e) == IF e.op = "leaf" THEN {e.n} ELSE UNION {Leaves(e.a[i]) : i \in DOMAIN e.a}
Count(e, x) == IF e = x THEN 1 ELSE FoldSeq(LAMBDA y, n : n + Count(y, x), 0, e.a)

\* sign of an expression if all leaves are positive: "+", "-", "0" or "?" (not determined)
Times(a, b) == CASE a = "0" \/ b = "0" -> "0" [] a = "?" \/ b = "?" -> "?" [] a = b -> "+" [] OTHER -> "-"
Plus(a, b) == CASE a = "0" -> b [] b = "0" -> a [] a = b -> a [] OTHER -> "?"
\* 1 - exp(-x) and 1 - f y/(1+y) with f < 1 are positive; the unresolved mass and the gas reservoir are taken as positive
PosSub(e) == e.op = "sub" /\ (e = Missing \/ (e.a[1] = One /\ e.a[2].op \in {"exp", "mul"}) \/ e.a[1] = L("plin0")
                              \/ e.a[2] = L("t_eff") \/ e.a[1] = Div(L("Ob"), Om) \/ e.a[1] = C("2.01"))
Sign(e) ==
   CASE e.op = "leaf" -> "+"
     [] e.op = "num" -> IF e.n \in {"-1", "-1.013", "-1.089"} THEN "-" ELSE "+"
     [] e.op = "zero" -> "0"
     [] e.op = "none" -> "0"
     [] e.op = "mul" -> FoldSeq(LAMBDA y, s : Times(Sign(y), s), "+", e.a)
     [] e.op = "div" -> Times(Sign(e.a[1]), Sign(e.a[2]))
     [] e.op = "add" -> FoldSeq(LAMBDA y, s : Plus(Sign(y), s), "0", e.a)
     [] e.op = "sub" -> IF PosSub(e) THEN "+" ELSE "?"
     [] e.op \in {"pow", "exp", "sqrt"} -> "+"
     [] OTHER -> Sign(e.a[1])
=============================================================================
