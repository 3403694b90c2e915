---------------------------- MODULE PipelineTrace ----------------------------
(***************************************************************************)
(* A trace: interval per configuration, reference outputs ref[key] from    *)
(* fresh modules or models, and the executions with their outputs obs.     *)
(***************************************************************************)
EXTENDS Pipeline, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, st, bad
tvars == <<t, l, st, bad>>
Tr == Traces[t]
TInit == t \in DOMAIN Traces /\ l = 1 /\ bad = <<>> /\ st = [m \in PModules |-> Unset]
After(e) == IF e.a = "setup" THEN SetUp(st, e.m, e.c) ELSE Exec(st, e.m, e.p, Tr.interval[st[e.m].cfg])
Clause(e, x) ==
   IF e.a = "setup" THEN (IF e.obs # 1 THEN "setup" ELSE "")
   ELSE IF Key(x, e.p) \notin DOMAIN Tr.ref THEN "machinery"
   ELSE IF e.obs # Tr.ref[Key(x, e.p)] THEN "output" ELSE ""
Step == /\ l <= Len(Tr.ops) /\ l' = l + 1 /\ UNCHANGED t
        /\ LET e == Tr.ops[l] s2 == After(e) c == Clause(e, s2[e.m])
           IN st' = s2 /\ bad' = IF c = "" \/ Len(bad) > 8 THEN bad ELSE Append(bad, <<l, c, IF e.a = "setup" THEN "setup" ELSE Key(s2[e.m], e.p)>>)
TSpec == TInit /\ [][Step]_tvars
Report == l = Len(Tr.ops) + 1 => PrintT("VERDICT" \o ToJson([t |-> t, n |-> l - 1, bad |-> bad]))
=============================================================================
