--------------------------- MODULE InfluenceCheck ---------------------------
(***************************************************************************)
(* Enumerates configurations, checks the general separation statements on  *)
(* the influence table, exports the table, and judges recorded changes:    *)
(* an event is a changed parameter with, for every result, whether it      *)
(* changed ("y"), did not ("n"), or the change is too small to tell ("?"). *)
(***************************************************************************)
EXTENDS Influence, Json, IOUtils
ToNum(str) == CHOOSE n \in 0..20000 : ToString(n) = str
Seed == ToNum(IOEnv.SEED)
NVar == ToNum(IOEnv.NVAR)
MainCfg == {m \in [nl : NLModes, ing : Ingredients, resp : Flag, pm : Flag] : ValidPair(m.nl, m.ing)}
MainSeq == SetToSeq(MainCfg)
Bit(x, n) == IF (x \div (2^n)) % 2 = 1 THEN "T" ELSE "F"
Cfg(i, v) ==
  LET x == (i * 1103 + v * 2741 + Seed * 977 + 5 * v * v * (i % 7)) % 4096
  IN MainSeq[i] @@ [dw |-> Bit(x, 0), t1 |-> Bit(x, 1), t2 |-> Bit(x, 2), t1i |-> Bit(x, 3), t2i |-> Bit(x, 4), bc |-> Bit(x, 5),
      bs |-> Bit(x, 6), pois |-> IF Bit(x, 7) = "T" THEN "constant" ELSE "power_law",
      hod |-> IF Bit(x, 8) = "T" THEN "Zheng" ELSE "Cacciato", plin |-> Bit(x, 9), pnl |-> Bit(x, 10),
      bsup |-> Bit(i * 3 + v + Seed, 1),
      mdef |-> IF Bit(x, 11) = "T" THEN "SOVirial" ELSE "SOMean"]
SeqSet(s) == {s[n] : n \in DOMAIN s}
QNames == SeqSet(Direct) \cup {s \o "." \o p : s \in SeqSet(SpSeq), p \in SeqSet(InfParts)}
Spec1(q) == CHOOSE s \in SeqSet(SpSeq) : \E p \in SeqSet(InfParts) : q = s \o "." \o p
Part1(q) == CHOOSE p \in SeqSet(InfParts) : q = Spec1(q) \o "." \o p
TermOf(q, c) == IF q \in SeqSet(Direct) THEN L(q) ELSE Terms(Spec1(q), c)[Part1(q)]
Table(c) == [q \in QNames |-> LET ls == Leaves(TermOf(q, c)) IN [may |-> MayAll(ls, c), must |-> MustAll(ls, c)]]
SwTable(c) == [w \in SeqSet(Switches) |-> LET d == Switched(c, w) IN {q \in QNames : TermOf(q, c) # TermOf(q, d)}]

VARIABLES i, v, t, l, bad
vars == <<i, v, t, l, bad>>
GInit == i = 1 /\ v = 0 /\ t = 0 /\ l = 0 /\ bad = <<>>
GNext == /\ \/ i < Len(MainSeq) /\ i' = i + 1 /\ v' = v
            \/ i = Len(MainSeq) /\ v + 1 < NVar /\ v' = v + 1 /\ i' = 1
         /\ UNCHANGED <<t, l, bad>>
c == Cfg(i, v)
MustIsMay == \A q \in QNames : Table(c)[q].must \subseteq Table(c)[q].may
Separation ==
   LET T == Table(c)  Of(s, p) == T[s \o "." \o p].may IN
   /\ \A p \in SeqSet(InfParts) : Of("mm", p) \cap (AlignPars \cup GalaxyPars) \subseteq {"hod_cen_par", "hod_sat_par"}
   /\ (c.ing # "fit" \/ c.resp = "T") => \A p \in SeqSet(InfParts) : Of("mm", p) \cap (CenPar \cup SatPar) = {}
   /\ \A s \in {"gg", "gm"}, p \in SeqSet(InfParts) : Of(s, p) \cap AlignPars = {}
   /\ c.resp = "F" => \A s \in SeqSet(SpSeq) : Of(s, "twoh") \cap OneHaloPars = {}
   /\ T["Nc"].may \cap SatPar = {} /\ T["nc"].may \cap SatPar = {}
   /\ Fixed(c) => \A q \in QNames : T[q].may \cap {"hmf_model", "bias_model", "mdef_model", "overdensity", "delta_c", "eta_cen", "eta_sat",
                                                   "halo_concentration_model_dm", "halo_concentration_model_sat"} = {}
Export == PrintT("CFG" \o ToJson([i |-> i, v |-> v, cfg |-> c, params |-> SelectSeq(InfParams, LAMBDA p : Settable(c, p)), switches |-> Switches]))

Traces == JsonDeserialize(IOEnv.TRACE)
Tr == Traces[t]
TInit == t \in DOMAIN Traces /\ i = Tr.i /\ v = Tr.v /\ l = 1 /\ bad = <<>>
\* e.ch: sequence of <<quantity, "y"/"n"/"?">>
Wrong(e, y, n) == LET w == {k \in DOMAIN e.ch : (e.ch[k][2] = "y" /\ e.ch[k][1] \notin y) \/ (e.ch[k][2] = "n" /\ e.ch[k][1] \in n)}
                  IN IF w = {} THEN <<>> ELSE LET k == CHOOSE k \in w : \A j \in w : k <= j IN
                       IF e.ch[k][2] = "y" THEN <<"influences", e.p \o " -> " \o e.ch[k][1]>> ELSE <<"ignored", e.p \o " -> " \o e.ch[k][1]>>
Clause(e) ==
   CASE c # Tr.cfg -> <<"machinery", "cfg">>
     [] e.err # "" -> <<"raised", e.p \o ": " \o e.err>>
     [] {e.ch[k][1] : k \in DOMAIN e.ch} # QNames -> <<"machinery", "incomplete">>
     [] e.sw = 1 -> LET s == SwTable(c)[e.p] IN Wrong(e, s, s)
     [] OTHER -> LET T == Table(c) IN Wrong(e, {q \in QNames : e.p \in T[q].may}, {q \in QNames : e.p \in T[q].must})
Step == /\ l <= Len(Tr.ops) /\ l' = l + 1 /\ UNCHANGED <<i, v, t>>
        /\ LET cl == Clause(Tr.ops[l]) IN bad' = IF cl = <<>> THEN bad ELSE Append(bad, <<l>> \o cl)
TSpec == TInit /\ [][Step]_vars
Report == l = Len(Tr.ops) + 1 => PrintT("VERDICT" \o ToJson([t |-> t, n |-> l - 1, bad |-> bad]))
=============================================================================
