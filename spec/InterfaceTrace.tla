--------------------------- MODULE InterfaceTrace ---------------------------
(***************************************************************************)
(* A trace is one run of the pipeline module in configuration cfg: an      *)
(* event per written or altered place [s, n, obs, pred, err]; pred = 0 for *)
(* a place that is not an output.                                          *)
(***************************************************************************)
EXTENDS Interface, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad
tvars == <<t, l, bad>>
Tr == Traces[t]
c == Tr.cfg
Places == {<<o.s, o.n>> : o \in Outputs(c)}
TInit == t \in DOMAIN Traces /\ l = 1 /\ bad = <<>>
Clause(e) ==
   CASE e.err # "" -> "raised"
     [] <<e.s, e.n>> \notin Places -> IF e.s \in MayWrite(c) THEN "" ELSE "unexpected"
     [] e.obs = 0 -> "missing"
     [] e.pred = 0 -> "machinery"
     [] e.obs # e.pred -> "value"
     [] OTHER -> ""
Step == /\ l <= Len(Tr.ops) /\ l' = l + 1 /\ UNCHANGED t
        /\ LET e == Tr.ops[l] IN bad' = IF Clause(e) = "" \/ Len(bad) > 8 THEN bad ELSE Append(bad, <<l, Clause(e), e.s \o "." \o e.n>>)
TSpec == TInit /\ [][Step]_tvars
Complete == \/ \E n \in DOMAIN Tr.ops : Tr.ops[n].err # ""
            \/ Places \subseteq {<<Tr.ops[n].s, Tr.ops[n].n>> : n \in DOMAIN Tr.ops}
Report == l = Len(Tr.ops) + 1 => PrintT("VERDICT" \o ToJson([t |-> t, n |-> l - 1,
             bad |-> IF ~ISupported(c) \/ ~Complete THEN Append(bad, <<1, "machinery", "incomplete">>) ELSE bad]))
=============================================================================
