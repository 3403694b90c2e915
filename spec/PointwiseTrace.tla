--------------------------- MODULE PointwiseTrace ---------------------------
(***************************************************************************)
(* A trace has one profile.  Events: op, r (request), err, obs = sequence  *)
(* of <<quantity, ids per position>> and glob = sequence of <<quantity,    *)
(* id>>.  F and G are learned at their first observation; from then on     *)
(* every answer has to agree with them.                                    *)
(***************************************************************************)
EXTENDS Pointwise, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, f, bad
tvars == <<req, t, l, f, bad>>
Tr == Traces[t]
TInit == PInit /\ t \in DOMAIN Traces /\ l = 1 /\ f = <<>> /\ bad = <<>>
\* answers of an event as a set of <<quantity, point, id>>; point 0 for what does not depend on the points
Answers(e) == {<<e.obs[i][1], e.r[j], e.obs[i][2][j]>> : i \in DOMAIN e.obs, j \in DOMAIN e.r}
              \cup {<<e.glob[i][1], 0, e.glob[i][2]>> : i \in DOMAIN e.glob}
Key(x) == x[1] \o "@" \o ToString(x[2])
Short(e) == \E i \in DOMAIN e.obs : Len(e.obs[i][2]) # Len(e.r)
ConflictsIn(A) == {x \in A : (Key(x) \in DOMAIN f /\ f[Key(x)] # x[3]) \/ (\E y \in A : y[1] = x[1] /\ y[2] = x[2] /\ y[3] # x[3])}
Step == /\ l <= Len(Tr.ops) /\ l' = l + 1 /\ UNCHANGED t
        /\ LET e == Tr.ops[l] IN
           /\ IF e.op = "new" THEN New(e.r) ELSE Change(e.r)
           /\ IF e.err # "" THEN bad' = Append(bad, <<l, "raised", e.err>>) /\ UNCHANGED f
              ELSE IF Short(e) THEN bad' = Append(bad, <<l, "length", e.obs[CHOOSE i \in DOMAIN e.obs : Len(e.obs[i][2]) # Len(e.r)][1]>>) /\ UNCHANGED f
              ELSE LET A == Answers(e)  cs == ConflictsIn(A) IN
                   IF cs # {} THEN bad' = Append(bad, <<l, "depends", (CHOOSE x \in cs : TRUE)[1]>>) /\ UNCHANGED f
                   ELSE bad' = bad /\ f' = f @@ [k \in {Key(x) : x \in A} |-> (CHOOSE x \in A : Key(x) = k)[3]]
TSpec == TInit /\ [][Step]_tvars
Report == l = Len(Tr.ops) + 1 => PrintT("VERDICT" \o ToJson([t |-> t, n |-> l - 1, bad |-> bad]))
=============================================================================
