---------------------------- MODULE RealSpaceGen ----------------------------
(***************************************************************************)
(* Exploration and generation of behaviours of the real-space modules.     *)
(* e is the configuration, v the content of the blocks, h the history.     *)
(***************************************************************************)
EXTENDS RealSpace, Json
CONSTANTS MaxLen, Few
VARIABLES c, u0, v, h      \* u0 = <<>>: not yet chosen
vars == <<c, u0, v, h>>
Names == {"def", "", "given"}
PCfg(m, n, suf, in, out, alg) ==
   [n |-> n, suf |-> suf, in |-> IF in = "given" THEN "my_pk_" \o Corr(m) ELSE in, out |-> IF out = "given" THEN "my_corr_" \o Corr(m) ELSE out,
    sample |-> IF m = "W" THEN "nz_a" ELSE "nz_b", alg |-> alg]
Cfg(w, d, cw, cd, fid, t, u) == [W |-> w, D |-> d, CW |-> [nz |-> cw], CD |-> [nz |-> cd], fid |-> fid, T |-> t, U |-> u]
Fids == {"default", "given", "same"}
TCfg(s, x) == [sec |-> s, u |-> x]
FewInit == \* all configurations of a small family, explored completely
   /\ \E n \in 1..2, k \in 1..2, suf \in BOOLEAN, fid \in {"given", "same"} :
        c = Cfg(PCfg("W", n, suf, "def", "given", "fftlog"), PCfg("D", k, TRUE, "given", "", "fftlog"), n, 1, fid, TCfg("shear_xi", "deg"), TCfg("shear_xi", "rad"))
   /\ u0 = [b \in RBlocks |-> IF b = 1 THEN <<"arcmin", "rad">> ELSE <<"radians", "arcsec">>]
Allu == Units \cup {"radian", "radians"}
Choose ==
   /\ \E n \in {RandomElement(1..3)}, k \in {RandomElement(1..3)}, s1 \in {RandomElement({TRUE, TRUE, FALSE})}, s2 \in {RandomElement(BOOLEAN)},
         i1 \in {RandomElement(Names)}, i2 \in {RandomElement(Names)}, o1 \in {RandomElement(Names)}, o2 \in {RandomElement(Names)},
         a1 \in {RandomElement(1..5)}, a2 \in {RandomElement(1..5)}, x1 \in {RandomElement(1..8)}, x2 \in {RandomElement(1..8)},
         fid \in {RandomElement(Fids)}, ta \in {RandomElement(Angles)}, tb \in {RandomElement(Angles)}, ua \in {RandomElement(Units)}, ub \in {RandomElement(Units)} :
        c' = Cfg(PCfg("W", n, s1, i1, o1, IF a1 = 1 THEN "ogata" ELSE "fftlog"), PCfg("D", k, s2, i2, o2, IF a2 = 1 THEN "ogata" ELSE "fftlog"),
                IF x1 = 1 THEN (n % 3) + 1 ELSE n, IF x2 = 1 THEN (k % 3) + 1 ELSE k, fid, TCfg(ta, ua), TCfg(tb, ub))
   /\ \E p \in {RandomElement(Allu)}, q \in {RandomElement(Allu)}, r \in {RandomElement(Allu)}, s \in {RandomElement(Allu)} :
        u0' = [b \in RBlocks |-> IF b = 1 THEN <<p, q>> ELSE <<r, s>>]
   /\ v' = [b \in RBlocks |-> RStart(u0'[b])] /\ h' = h
Start == PCfg("W", 1, FALSE, "def", "def", "fftlog")
Init == /\ IF Few THEN FewInit ELSE c = Cfg(Start, Start, 1, 1, "same", TCfg("shear_xi", "rad"), TCfg("shear_xi", "rad")) /\ u0 = <<>>
        /\ v = [b \in RBlocks |-> RStart(IF Few THEN u0[b] ELSE <<"rad", "rad">>)] /\ h = <<>>
Do(b, op) == /\ Applicable(v[b], op, c)
             /\ v' = [v EXCEPT ![b] = RAfter(v[b], op, c)]
             /\ h' = Append(h, [b |-> b, op |-> op, ok |-> Accepts(v[b], op, c)]) /\ UNCHANGED <<c, u0>>
Next == Len(h) < MaxLen /\ \E b \in RBlocks, op \in ROps : Do(b, op)
Spec == Init /\ [][Next]_vars
RNext == IF u0 = <<>> THEN Choose ELSE
         /\ Len(h) < MaxLen
         /\ \E b \in {RandomElement(RBlocks)} : \E op \in {RandomElement({o \in ROps : Applicable(v[b], o, c)})} : Do(b, op)
RSpec == Init /\ [][RNext]_vars
Emit == Len(h) = MaxLen => PrintT("PLAN" \o ToJson([cfg |-> c, u0 |-> u0, ops |-> h]))
-----------------------------------------------------------------------------
\* (1) a sample's correlation involves its own spectrum and its own redshift distribution, and nothing of the other samples
Foreign(m, i) == IF c[m].suf THEN {"p|" \o InSec(m, c, j) : j \in 1..c[m].n \ {i}} ELSE {}
OwnOnly == \A b \in RBlocks : \A m \in Projectors : \A i \in 1..c[m].n : LET p == Place(OutSec(m, c), Bin(i)) IN
   p \in DOMAIN v[b] => LET ls == LeavesOf(v[b][p]) IN
       /\ "p|" \o InSec(m, c, i) \in ls /\ "nz_" \o ToString(i) \o "|" \o c[m].sample \in ls
       /\ Foreign(m, i) \cap ls = {}
       /\ \A j \in 1..c[m].n \ {i} : "nz_" \o ToString(j) \o "|" \o c[m].sample \notin ls
       /\ Occur(v[b][p], Trans(m, c, i)) = 1              \* proportional to the spectrum
\* (2) with the data's cosmology corrections change nothing
SameNothing == c.fid = "same" => \A b \in RBlocks : \A m \in Projectors : \A i \in 1..c[m].n : LET s == OutSec(m, c) p == Place(s, Bin(i)) IN
   p \in DOMAIN v[b] => v[b][p] = Projected(m, c, i) /\ v[b][Place(s, "rp")].a[i] = L("rp|" \o m)
\* (3) the number of corrections in the content is the number since the last projection
RECURSIVE Since(_, _, _)
Since(b, m, i) == IF i = 0 \/ (h[i].b = b /\ h[i].op = m) THEN 0 ELSE Since(b, m, i - 1) + (IF h[i].b = b /\ h[i].op = "C" \o m /\ h[i].ok THEN 1 ELSE 0)
Compound == c.fid # "same" => \A b \in RBlocks : \A m \in Projectors : \A i \in 1..c[m].n : LET s == OutSec(m, c) p == Place(s, Bin(i)) IN
   p \in DOMAIN v[b] => /\ Occur(v[b][p], AmpRatio(m, i)) = Since(b, m, Len(h))
                        /\ Occur(v[b][Place(s, "rp")].a[i], SepRatio(m, i)) = Since(b, m, Len(h))
\* (4) value and unit of an angle belong together, and the angle never changes
Angle == \A b \in RBlocks : \A s \in Angles : v[b][Place(s, "theta")] = InUnit(v[b][Place(s, "theta unit")].n, L("angle|" \o s))
\* (5) an operation writes its own places of its own block only
Frame == [][LET e == h'[Len(h')] IN /\ \A b \in RBlocks \ {e.b} : v'[b] = v[b]
                                    /\ \A p \in DOMAIN v[e.b] : p \notin Writes(e.op, c) => v'[e.b][p] = v[e.b][p]
                                    /\ DOMAIN v'[e.b] \subseteq DOMAIN v[e.b] \cup Writes(e.op, c)
                                    /\ (~e.ok => v' = v)]_vars
=============================================================================
