--------------------------- MODULE ResponseTrace ---------------------------
(***************************************************************************)
(* Recorded sessions: each trace has its initial options, the identities   *)
(* of the symbolic values (computed by the driver from a separate object   *)
(* with the option off, and the power) and the observations.               *)
(***************************************************************************)
EXTENDS Response, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad
vars == <<resp, pnl, out, t, l, bad>>
Tr == Traces[t]
\* identity of a symbolic value: tab is a sequence of <<value, id>>
Id(x) == LET hit == {n \in DOMAIN Tr.tab : Tr.tab[n][1] = x} IN
         IF hit = {} THEN -1 ELSE Tr.tab[CHOOSE n \in hit : TRUE][2]
TInit == t \in DOMAIN Traces /\ l = 1 /\ bad = <<>> /\ resp = (Traces[t].start[1]) /\ pnl = Traces[t].start[2] /\ out = <<>>
Wrong(e) == {p \in Parts : Id(Value(e.op, p, resp, pnl)) # e.obs[p]}
PSeq == <<"tot", "twoh", "oneh", "bias">>
First(S) == PSeq[CHOOSE n \in DOMAIN PSeq : PSeq[n] \in S /\ \A m \in 1..n-1 : PSeq[m] \notin S]
Step == /\ l <= Len(Tr.ops)
        /\ LET e == Tr.ops[l] IN
             /\ CASE e.op = "toggle" -> Toggle [] e.op \in {"x", "y"} -> Supply(e.op) [] OTHER -> Read(e.op)
             /\ bad' = CASE e.err # "" -> Append(bad, <<l, "raised", e.op>>)
                         [] e.op \in Spectra /\ Wrong(e) # {} -> Append(bad, <<l, "response", e.op \o "." \o First(Wrong(e))>>)
                         [] OTHER -> bad
        /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][Step]_vars
Report == l = Len(Tr.ops) + 1 => PrintT("VERDICT" \o ToJson([t |-> t, n |-> l - 1, bad |-> bad]))
=============================================================================
