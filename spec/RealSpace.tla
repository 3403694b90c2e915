----------------------------- MODULE RealSpace ------------------------------
(***************************************************************************)
(* The modules after the model: projection of spectra to correlations      *)
(* (pk_to_real, pk_to_real_ogata), correction of these to the cosmology of *)
(* the data (correct_cosmo_real), conversion of angles (convert_theta).    *)
(*                                                                         *)
(* Modules W and D project (clustering wp, lensing ds), CW and CD correct  *)
(* what W and D have written, T and U convert angles; every module is set  *)
(* up once, and executed on either of two blocks in any order.  The state  *)
(* of a block is, for every place, the expression of its content in terms  *)
(* of what the block was given.                                            *)
(***************************************************************************)
EXTENDS Expr
RBlocks == 1..2
Projectors == {"W", "D"}
Corr(m) == IF m = "W" THEN "wp" ELSE "ds"
DefIn(m) == IF m = "W" THEN "galaxy_power" ELSE "matter_galaxy_power"
DefOut(m) == IF m = "W" THEN "wp" ELSE "ds"
\* c[m]: [n, suf, in, out, sample, alg]; n samples; in/out: "def" (not given), "" (given, empty) or a name
InBase(m, c) == IF c[m].in \in {"def", ""} THEN DefIn(m) ELSE c[m].in
OutSec(m, c) == IF c[m].out \in {"def", ""} THEN DefOut(m) ELSE c[m].out
SufName(i) == <<"red", "blue_2", "c">>[i]
InSec(m, c, i) == IF c[m].suf THEN InBase(m, c) \o "_" \o SufName(i) ELSE InBase(m, c)
Place(s, n) == s \o "|" \o n
Bin(i) == "bin_" \o ToString(i)
Word(x) == E("word", x, <<>>)
-----------------------------------------------------------------------------
\* projection: of each redshift's spectrum to separations, weighted with the redshift distribution of that sample (zero outside
\* its table); lensing is of the mean matter density, in solar masses per square parsec
InL(m, c, i, x) == L(x \o "|" \o InSec(m, c, i))
Kernel(m, c, i) == Interp("zero", "o", "z", L("nzz|" \o c[m].sample), InL(m, c, i, "z"), L("nz_" \o ToString(i) \o "|" \o c[m].sample))
Trans(m, c, i) == Via("k", "r", c[m].alg \o " " \o m, <<InL(m, c, i, "p"), InL(m, c, i, "k")>>)
Projected(m, c, i) ==
   LET f == <<Kernel(m, c, i), Trans(m, c, i)>>
       s(g) == Simpson("z", InL(m, c, i, "z"), Mul(g))
   IN IF m = "W" \/ c[m].alg = "ogata" THEN s(f) ELSE Div(s(Append(f, L("rho"))), C("1e12"))
Label(m, c) == IF c[m].alg = "ogata" THEN "" ELSE Corr(m)
Upd(v, p, x) == [q \in DOMAIN v \cup {p} |-> IF q = p THEN x ELSE v[q]]
BinNo(s, p, n) == {i \in 1..n : p = Place(s, Bin(i))}
Bins(v, s, fs) == [q \in DOMAIN v \cup {Place(s, Bin(i)) : i \in DOMAIN fs} |->
                   LET j == BinNo(s, q, Len(fs)) IN IF j = {} THEN v[q] ELSE fs[CHOOSE i \in j : TRUE]]
Meta(v, m, c) == LET s == OutSec(m, c) IN
   Upd(Upd(Upd(Upd(v, Place(s, "nbin"), Word(ToString(c[m].n))), Place(s, "sample"), Word(c[m].sample)),
           Place(s, "sep_name"), Word("rp")), Place(s, "save_name"), Word(Label(m, c)))
\* separations: one array for all samples; Sep(v, s) is a sequence, the separations of each sample
Project(v, m, c) == LET s == OutSec(m, c) IN
   Upd(Bins(Meta(v, m, c), s, [i \in 1..c[m].n |-> Projected(m, c, i)]), Place(s, "rp"), E("each", "", [i \in 1..c[m].n |-> L("rp|" \o m)]))
-----------------------------------------------------------------------------
\* correction of sample i of module m to the cosmology of the data; run: the cosmology of the block, fid: that of the module
Ratio(x, y, m, i) == Div(L(x \o "|" \o m \o "|" \o ToString(i)), L(y \o "|" \o m \o "|" \o ToString(i)))
HRatio == Div(L("h_run"), L("h_fid"))
SepRatio(m, i) == Mul(<<Ratio("chi_run", "chi_fid", m, i), HRatio>>)
\* the projected correlation has the dimension of a length along the line of sight; lensing the inverse critical density
AmpRatio(m, i) == IF m = "W" THEN Div(Ratio("e_fid", "e_run", m, i), HRatio)
                  ELSE Mul(<<Div(L("ds_fid"), L("ds_run")), Ratio("dls_run", "dls_fid", m, i), Ratio("dl_run", "dl_fid", m, i), HRatio>>)
Times(m, c, i, x, f) == IF c.fid = "same" THEN x ELSE Mul(<<x, f>>)
CorrectOk(v, m, c) == c["C" \o m].nz = c[m].n /\ v[Place(OutSec(m, c), "save_name")] = Word(Corr(m))
Correct(v, m, c) == LET s == OutSec(m, c) IN
   Upd(Bins(v, s, [i \in 1..c[m].n |-> Times(m, c, i, v[Place(s, Bin(i))], AmpRatio(m, i))]), Place(s, "rp"), E("each", "", [i \in 1..c[m].n |-> Times(m, c, i, v[Place(s, "rp")].a[i], SepRatio(m, i))]))
\* what the code is known to do with the separations instead (known finding): all samples' factors on the one array
RECURSIVE AllRatios(_, _, _)
AllRatios(m, n, i) == IF i > n THEN <<>> ELSE <<SepRatio(m, i)>> \o AllRatios(m, n, i + 1)
KnownSep(x, m, c) == IF c.fid = "same" THEN x ELSE Mul(<<x>> \o AllRatios(m, c[m].n, 1))
-----------------------------------------------------------------------------
\* angles: the content is the same angle whatever the unit
Units == {"rad", "deg", "arcmin", "arcsec"}
InUnit(u, x) == CASE u \in {"rad", "radian", "radians"} -> x
                  [] u = "deg" -> Div(Mul(<<C("180"), x>>), L("pi"))
                  [] u = "arcmin" -> Div(Mul(<<C("10800"), x>>), L("pi"))
                  [] u = "arcsec" -> Div(Mul(<<C("648000"), x>>), L("pi"))
Convert(v, t, c) == Upd(Upd(v, Place(c[t].sec, "theta"), InUnit(c[t].u, L("angle|" \o c[t].sec))), Place(c[t].sec, "theta unit"), Word(c[t].u))
Angles == {"shear_xi", "galaxy_xi"}
RStart(u) == [p \in {Place(s, x) : s \in Angles, x \in {"theta", "theta unit"}} |->
              CASE p = Place("shear_xi", "theta") -> InUnit(u[1], L("angle|shear_xi"))
                [] p = Place("galaxy_xi", "theta") -> InUnit(u[2], L("angle|galaxy_xi"))
                [] p = Place("shear_xi", "theta unit") -> Word(u[1])
                [] OTHER -> Word(u[2])]
-----------------------------------------------------------------------------
\* supported operations on a block with content v, and their results; anything else is refused and leaves the block alone
ROps == {"W", "D", "CW", "CD", "T", "U"}
Has(v, m, c) == Place(OutSec(m, c), "rp") \in DOMAIN v
Applicable(v, op, c) == CASE op = "CW" -> Has(v, "W", c) [] op = "CD" -> Has(v, "D", c) [] OTHER -> TRUE
Accepts(v, op, c) == CASE op = "CW" -> CorrectOk(v, "W", c) [] op = "CD" -> CorrectOk(v, "D", c) [] OTHER -> TRUE
Apply(v, op, c) == CASE op \in {"W", "D"} -> Project(v, op, c)
                     [] op = "CW" -> Correct(v, "W", c) [] op = "CD" -> Correct(v, "D", c)
                     [] op \in {"T", "U"} -> Convert(v, op, c)
RAfter(v, op, c) == IF Accepts(v, op, c) THEN Apply(v, op, c) ELSE v
\* places an operation may write
Writes(op, c) == CASE op \in {"W", "D"} -> {Place(OutSec(op, c), n) : n \in {"nbin", "sample", "sep_name", "save_name", "rp"} \cup {Bin(i) : i \in 1..c[op].n}}
                   [] op = "CW" -> {Place(OutSec("W", c), n) : n \in {"rp"} \cup {Bin(i) : i \in 1..c["W"].n}}
                   [] op = "CD" -> {Place(OutSec("D", c), n) : n \in {"rp"} \cup {Bin(i) : i \in 1..c["D"].n}}
                   [] OTHER -> {Place(c[op].sec, n) : n \in {"theta", "theta unit"}}
=============================================================================
