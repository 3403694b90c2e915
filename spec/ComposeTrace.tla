---------------------------- MODULE ComposeTrace ----------------------------
(***************************************************************************)
(* A trace is the reading of all quantities of one object in configuration *)
(* CfgSeq[n]: events [q, obs, pred, err]; obs = pred if the observed value *)
(* equals that of the specified expression; obs = 0 if there is no value.  *)
(***************************************************************************)
EXTENDS Compose
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad
tvars == <<i, t, l, bad>>
Tr == Traces[t]
TInit == t \in DOMAIN Traces /\ i = Tr.i /\ l = 1 /\ bad = <<>>
Clause(e) ==
   CASE c # Tr.cfg \/ e.q \notin QSet(c) -> "machinery"
     [] e.err # "" -> "raised"
     [] Term(e.q, c).op = "none" -> IF e.obs = 0 THEN "" ELSE "unexpected"
     [] e.obs = 0 -> "missing"
     [] e.obs # e.pred -> "value"
     [] OTHER -> ""
Step1 == /\ l <= Len(Tr.ops) /\ l' = l + 1 /\ UNCHANGED <<i, t>>
         /\ LET e == Tr.ops[l] IN bad' = IF Clause(e) = "" THEN bad ELSE Append(bad, <<l, Clause(e), e.q>>)
\* enumeration of the configurations with the trace variables idle
GInitX == GInit /\ t = 0 /\ l = 0 /\ bad = <<>>
GNextX == GNext /\ UNCHANGED <<t, l, bad>>
TSpec == TInit /\ [][Step1]_tvars
Complete == {Tr.ops[n].q : n \in DOMAIN Tr.ops} = QSet(c)
Report == l = Len(Tr.ops) + 1 => PrintT("VERDICT" \o ToJson([t |-> t, n |-> l - 1,
             bad |-> IF Complete THEN bad ELSE Append(bad, <<1, "machinery", "incomplete">>)]))
=============================================================================
