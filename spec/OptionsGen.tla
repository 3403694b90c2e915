----------------------------- MODULE OptionsGen -----------------------------
(* Behaviours: contexts x every single and double change, then recovery (mode "step"); all supported or unsupported
   combinations of the main switches (mode "combo"). *)
EXTENDS Options, Json, IOUtils
ToNum(str) == CHOOSE n \in 0..200000 : ToString(n) = str
Seed == ToNum(IOEnv.SEED)
Mode == IOEnv.MODE
NSim == ToNum(IOEnv.NSIM)
D(k, c) == Upd(Default(k), c)
Ctx == << <<"S", << >> >>,
          <<"S", << <<"nl", "hmcode">>, <<"ing", "mead2020">>, <<"resp", "T">>, <<"pnl", "ok">> >> >>,
          <<"S", << <<"nl", "fortuna">>, <<"claw", "luminosity">>, <<"slaw", "constant">>, <<"plin", "ok">>, <<"pnl", "ok">> >> >>,
          <<"S", << <<"nl", "bnl">>, <<"ing", "fit">>, <<"pois", "power_law">>, <<"slaw", "luminosity">>, <<"mps", "None">> >> >>,
          <<"S", << <<"hod", "Zheng">>, <<"ing", "mead2020_feedback">>, <<"resp", "T">>, <<"claw", "halo_mass">>, <<"slaw", "halo_mass">> >> >>,
          <<"A", << >> >>,
          <<"A", << <<"method", "hankel">>, <<"claw", "halo_mass">>, <<"slaw", "luminosity">> >> >>,
          <<"A", << <<"claw", "luminosity">>, <<"two", "given">>, <<"slaw", "halo_mass">> >> >>,
          <<"B", << >> >>, <<"B", << <<"amp", "A_s">> >> >> >>
Changes(k, v) == {<< <<p, x>> >> : p \in SeqSet(OptsOf(k)), x \in UNION {SeqSet(Values(q)) : q \in SeqSet(OptsOf(k))}}
Legal(k, v) == {c \in Changes(k, v) : c[1][2] \in SeqSet(Values(c[1][1])) /\ v[c[1][1]] # c[1][2]}
\* recovery: every option named gets a valid value again: the former one or the default
Recover(k, v, c, w) == [i \in DOMAIN c |-> <<c[i][1], w[c[i][1]]>>]

VARIABLES hist, stage
vars == <<kind, val, named, state, hist, stage>>

\* ---- mode step: context, change (+ an ordinary parameter), recovery, another change
InitStep == \E n \in DOMAIN Ctx : /\ kind = Ctx[n][1] /\ val = D(Ctx[n][1], Ctx[n][2]) /\ named = {} /\ state = "ok"
                                  /\ hist = << <<"create", Ctx[n][1], SetToSeq({<<p, val[p]>> : p \in DOMAIN val})>> >> /\ stage = 0
T(c) == Try(c) /\ hist' = Append(hist, <<"try", c>>)
Orig == LET h == hist[1][3] IN [p \in DOMAIN val |-> h[CHOOSE i \in DOMAIN h : h[i][1] = p][2]]
\* values that are supported whatever the others are
Safe(p) == CASE p \in {"claw", "slaw"} -> "constant" [] OTHER -> Values(p)[1]
SafeSeq(N) == SetToSeq({<<p, Safe(p)>> : p \in N})
NextStep ==
   \/ stage = 0 /\ stage' = 1 /\ \E c \in Legal(kind, val) :
         \/ T(c)
         \/ c[1][1] # "sig" /\ ~Supported(kind, Upd(val, c)) /\ T(c \o << <<"sig", "b">> >>)
   \/ stage = 1 /\ stage' = 2 /\ T(SetToSeq({<<p, Orig[p]>> : p \in DOMAIN val} \cap {<<p, Orig[p]>> : p \in NamedIn(hist[2][2])} ))
   \/ stage = 2 /\ stage' = 3 /\ UNCHANGED <<kind, val, named, state, hist>>
\* ---- mode combo: one object per combination
MainS == {[nl |-> a, ing |-> b, resp |-> c, hod |-> d, claw |-> e, slaw |-> f, pois |-> g] :
            a \in SeqSet(Values("nl")) \ {"bad"}, b \in SeqSet(Values("ing")) \ {"bad"}, c \in {"F", "T"}, d \in SeqSet(Values("hod")) \ {"bad"},
            e \in {"constant", "halo_mass", "luminosity"}, f \in {"constant", "halo_mass", "luminosity"}, g \in {"constant", "power_law"}}
Hash(i) == (i * 7919 + Seed * 104729) % 100000
Picked == {x \in MainS : RandomElement(1..Cardinality(MainS)) <= NSim}
InitCombo == \E x \in Picked :
   /\ kind = "S" /\ val = [p \in DOMAIN Default("S") |-> IF p \in DOMAIN x THEN x[p] ELSE Default("S")[p]]
   /\ named = {} /\ state = IF Supported("S", val) THEN "ok" ELSE "rejected"
   /\ hist = << <<"create", "S", SetToSeq({<<p, val[p]>> : p \in DOMAIN val})>> >> /\ stage = 3
Init == IF Mode = "combo" THEN InitCombo ELSE InitStep
Next == Mode # "combo" /\ NextStep
Spec == Init /\ [][Next]_vars
RecoveredOk == (Mode = "step" /\ stage >= 2) => state = "ok"
Emit == stage = 3 => PrintT("PLAN" \o ToJson([kind |-> kind, ops |-> hist]))
=============================================================================
