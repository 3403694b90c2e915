------------------------------ MODULE Alignment ------------------------------
(***************************************************************************)
(* Intrinsic-alignment amplitudes and the kernel of satellite alignment.   *)
(*                                                                         *)
(* Axes: z redshift, l luminosity bin, M halo mass given, m halo mass of   *)
(* the kernel, k wavenumber of the kernel, q output wavenumber, n output   *)
(* mass, g galaxy of a catalogue, r radius.                                *)
(* Redshifts of model and catalogues are whole numbers of 1/64, so that    *)
(* slices have exact edges.                                                *)
(***************************************************************************)
EXTENDS Expr, Integers
AlLaws == {"constant", "luminosity", "halo_mass"}
\* redshift grids: equal spacing, unequal spacing, single pair
ZGrids == [even |-> <<8, 16, 24, 32>>, uneven |-> <<6, 10, 22>>, two |-> <<10, 30>>]
\* galaxies per catalogue position: everywhere / with an empty slice / on the edges only
CatZ == [dense |-> [n \in 1..60 |-> (n * 7) % 45],
         holes |-> [n \in 1..30 |-> IF n % 2 = 0 THEN n % 13 ELSE 21 + (n % 16)],
         edges |-> << 2, 4, 4, 5, 6, 8, 8, 10, 12, 12, 13, 14, 16, 18, 20, 20, 20, 22, 24, 24, 26, 27, 28, 28, 30, 31, 34, 36, 36, 40, 40, 41 >>]
\* law_c "broken": luminosity law with two slopes.  size: masses given and masses wanted in the kernel
Sizes == << <<5, 5>>, <<12, 4>>, <<13, 4>>, <<11, 4>>, <<16, 5>>, <<7, 6>>, <<9, 2>> >>
AmpCfgs ==
   {c \in [law_c : AlLaws \cup {"broken"}, law_s : AlLaws, zg : DOMAIN ZGrids, cat : DOMAIN CatZ, method : {"fftlog"},
           trunc : {"F"}, slope : {"-2"}, ell : {2}, size : {1}, amp : {"small"}, part : {"amp"}] :
      \* a catalogue is only looked at by the luminosity laws
      (c.law_c \notin {"luminosity", "broken"} /\ c.law_s # "luminosity" => c.cat = "dense")}
KernelCfgs ==
   {c \in [law_c : {"constant"}, law_s : {"constant", "luminosity"}, zg : {"two"}, cat : {"dense"}, method : {"hankel", "fftlog"},
           trunc : {"T", "F"}, slope : {"-2", "0", "x"}, ell : {2, 4, 6, 7, 10}, size : DOMAIN Sizes, amp : {"small", "large"}, part : {"kernel"}] :
      (c.law_s = "constant" \/ c.ell = 2) /\ (c.method = "fftlog" => c.size \in {1, 3}) /\ (c.size > 3 => c.ell \in {4, 10})}
AlCfgs == AmpCfgs \cup KernelCfgs
AlLeafAx == [n \in {"gamma_2h", "beta", "beta_two", "gamma_1h", "beta_sat", "lp_c", "lp_s", "slope", "L.cen", "L.sat", "rvir", "rs", "c", "mass",
                    "k", "kout", "mout", "rnode"} |->
   CASE n \in {"L.cen", "L.sat"} -> {"g"} [] n \in {"rvir", "mass"} -> {"M"} [] n \in {"rs", "c"} -> {"z", "M"}
     [] n = "k" -> {"k"} [] n = "kout" -> {"q"} [] n = "mout" -> {"n"} [] n = "rnode" -> {"r"} [] OTHER -> {}]

-----------------------------------------------------------------------------
\* slices: half the first spacing below each redshift up to the next slice; the last one ends half a spacing above its redshift.
\* all positions are doubled so that the half spacing is a whole number
Edge(zs, j) == LET d == zs[2] - zs[1] IN IF j <= Len(zs) THEN 2 * zs[j] - d ELSE 2 * zs[Len(zs)] + d
InSlice(zs, z, j) == 2 * z >= Edge(zs, j) /\ 2 * z < Edge(zs, j + 1)
Members(zs, cat, j) == SelectSeq([n \in DOMAIN cat |-> n - 1], LAMBDA n : InSlice(zs, cat[n + 1], j))
RECURSIVE SliceWords(_, _, _)
SliceWords(zs, cat, j) == IF j > Len(zs) THEN "" ELSE " |" \o Words(Members(zs, cat, j)) \o SliceWords(zs, cat, j + 1)
\* bin centres and probability density of the luminosities in each slice; an empty slice has zeros
Hist(what, c, pop) == Via("g", "zl", "hist " \o what \o SliceWords(ZGrids[c.zg], CatZ[c.cat], 1), <<L("L." \o pop)>>)
Lum(c, pop) == Hist("x", c, pop)
Pdf(c, pop) == Hist("p", c, pop)
MeanLaw(c, pop, law) == Simpson("l", Lum(c, pop), Mul(<<Pdf(c, pop), law>>))
RelC(c) == Div(Lum(c, "cen"), L("lp_c"))
CenAmp(c) ==
   CASE c.law_c \in {"constant", "halo_mass"} -> L("gamma_2h")
     [] c.law_c = "luminosity" -> Mul(<<L("gamma_2h"), MeanLaw(c, "cen", Pow(RelC(c), L("beta")))>>)
     [] c.law_c = "broken" -> Mul(<<L("gamma_2h"), MeanLaw(c, "cen",
            Add(<<Mul(<<Above(RelC(c), One), Pow(RelC(c), L("beta"))>>),
                  Mul(<<Sub(One, Above(RelC(c), One)), Pow(RelC(c), L("beta_two"))>>)>>))>>)
SatAmp(c) ==
   CASE c.law_s \in {"constant", "halo_mass"} -> L("gamma_1h")
     [] c.law_s = "luminosity" -> Mul(<<L("gamma_1h"), MeanLaw(c, "sat", Pow(Div(Lum(c, "sat"), L("lp_s")), L("beta_sat")))>>)

-----------------------------------------------------------------------------
\* the masses at which the kernel is evaluated: all (fftlog), or every f-th from the lightest and always the heaviest
Kept(c) ==
   LET n == Sizes[c.size][1]  w == Sizes[c.size][2]  f == n \div w IN
   IF c.method = "fftlog" \/ n = w THEN [j \in 1..n |-> j - 1]
   ELSE LET e == [j \in 1..((n - 1) \div f + 1) |-> (j - 1) * f] IN
        IF e[Len(e)] = n - 1 THEN e ELSE Append(e, n - 1)
AtKept(c, x) == Take("M", "m", Kept(c), x)
Mass(c) == AtKept(c, L("mass"))
Rvir(c) == AtKept(c, L("rvir"))
Rs(c) == AtKept(c, L("rs"))
Con(c) == AtKept(c, L("c"))
\* radial profile: alignment as a power law of radius, constant in the core and at most 0.3, times NFW
Shear(c) == MinOf(Mul(<<SatAmp(c), Pow(Div(MaxOf(L("rnode"), C("0.06")), Rvir(c)), L("slope"))>>), C("0.3"))
NFW(c) == LET x == Div(L("rnode"), Rs(c))
              p == Div(One, Mul(<<x, Sq(Add(<<One, x>>))>>)) IN
          IF c.trunc = "T" THEN Mul(<<p, Sub(One, Step(Sub(L("rnode"), Rvir(c))))>>) ELSE p
Profile(c) == Mul(<<Shear(c), NFW(c)>>)
MNfw(c) == Mul(<<C("12.566370614359172"), Rs(c), Rs(c), Rs(c), Sub(Ln(Add(<<One, Con(c)>>)), Div(Con(c), Add(<<One, Con(c)>>)))>>)
\* spherical Bessel transform of order ell by the selected method, per unit mass
Radial(c, ell) == Div(Via("r", "k", "bessel " \o c.method \o " " \o ToString(ell), <<Profile(c)>>), MNfw(c))
\* the projected shear falls off as sin^slope; a constant radial alignment is projected with sin
Angular(c, ell) == E("fell", ToString(ell), <<If0(L("slope"), One, L("slope"))>>)
Ells(c) == [j \in 1..(c.ell \div 2 + 1) |-> 2 * (j - 1)]
Sign(ell) == IF (ell \div 2) % 2 = 0 THEN One ELSE C("-1")
Kernel(c) == Abs(Add([j \in DOMAIN Ells(c) |-> LET ell == Ells(c)[j] IN
                      Mul(<<Sign(ell), C(ToString(2 * ell + 1)), Angular(c, ell), Radial(c, ell)>>)]))
\* carried to the output wavenumbers (and, if masses were left out, to the output masses)
Up(c) == IF c.method = "fftlog" THEN Interp("ext", "k", "q", L("k"), L("kout"), Kernel(c))
         ELSE Mul(<<Sq(L("kout")),
              Ten(Interp("ext", "m", "n", Log10(Mass(c)), Log10(L("mout")),
                  Interp("ext", "k", "q", Log10(L("k")), Log10(L("kout")), Log10(Div(Kernel(c), Sq(L("k")))))))>>)

AlTerm(q, c) ==
   CASE q = "alignment_gi" -> CenAmp(c) [] q = "gamma_1h_amp" -> SatAmp(c)
     [] q = "lum_centrals" -> Lum(c, "cen") [] q = "lum_pdf_z_centrals" -> Pdf(c, "cen")
     [] q = "lum_satellites" -> Lum(c, "sat") [] q = "lum_pdf_z_satellites" -> Pdf(c, "sat")
     [] q = "mass" -> Mass(c) [] q = "rvir" -> Rvir(c) [] q = "r_s" -> Rs(c) [] q = "c" -> Con(c)
     [] q = "wkm_f_ell" -> Kernel(c) [] q = "upsampled" -> Up(c)
AmpQs == <<"alignment_gi", "gamma_1h_amp", "lum_centrals", "lum_pdf_z_centrals", "lum_satellites", "lum_pdf_z_satellites">>
AlQSeq(c) == IF c.part = "amp" THEN AmpQs
             ELSE <<"gamma_1h_amp", "mass", "rvir", "r_s", "c", "wkm_f_ell", "upsampled">>
AlOutAx(q) == CASE q \in {"alignment_gi", "gamma_1h_amp"} -> {"z"} [] q \in {"mass", "rvir"} -> {"m"} [] q \in {"r_s", "c"} -> {"z", "m"}
                [] q = "wkm_f_ell" -> {"z", "m", "k"} [] q = "upsampled" -> {"z", "m", "n", "q"} [] OTHER -> {"z", "l"}
\* the slices do not overlap and leave no gap; the kept masses are in order, contain both ends and are no fewer than wanted;
\* no multipole beyond the largest and the monopole does not contribute (its angular part vanishes, checked on the numbers)
AlSound(c) ==
   LET zs == ZGrids[c.zg]  n == Sizes[c.size][1]  kp == Kept(c) IN
   /\ \A z \in 0..64 : LET in == {j \in DOMAIN zs : InSlice(zs, z, j)} IN
         Cardinality(in) = IF 2 * z >= Edge(zs, 1) /\ 2 * z < Edge(zs, Len(zs) + 1) THEN 1 ELSE 0
   /\ \A j \in DOMAIN zs : c.zg = "even" => InSlice(zs, zs[j], j)
   /\ kp[1] = 0 /\ kp[Len(kp)] = n - 1 /\ (\A j \in 1..(Len(kp) - 1) : kp[j] < kp[j + 1]) /\ Len(kp) >= Sizes[c.size][2]
   /\ \A j \in DOMAIN Ells(c) : Ells(c)[j] <= c.ell
=============================================================================
