-------------------------- MODULE NonLinTermTrace --------------------------
EXTENDS NonLinTerm, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad
vars == <<src, ci, cj, cos, out, t, l, bad>>
Tr == Traces[t]
Id(x) == LET hit == {n \in DOMAIN Tr.tab : Tr.tab[n][1] = x} IN IF hit = {} THEN -1 ELSE Tr.tab[CHOOSE n \in hit : TRUE][2]
TInit == /\ t \in DOMAIN Traces /\ l = 1 /\ bad = <<>> /\ out = <<>>
         /\ src = Traces[t].start[1] /\ cos = Traces[t].start[2] /\ ci = 0 /\ cj = 0
Wrong(e) == {p \in {"oneh", "twoh", "tot"} : Id(Value(e.op[2], p, src, ci, cj, cos)) # e.obs[p]}
Step == /\ l <= Len(Tr.ops)
        /\ LET e == Tr.ops[l] o == e.op IN
             /\ CASE o[1] = "supply" -> Supply(o[2], o[3]) [] o[1] = "compute" -> Compute [] o[1] = "cosmo" -> SetCosmo(o[2]) [] OTHER -> Read(o[2])
             /\ bad' = CASE e.err # "" -> Append(bad, <<l, "raised", o[1]>>)
                         [] o[1] = "read" /\ Wrong(e) # {} -> Append(bad, <<l, IF "oneh" \in Wrong(e) THEN "onehalo" ELSE IF src = "sup" THEN "linear" ELSE "emulator", o[2]>>)
                         [] OTHER -> bad
        /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][Step]_vars
Report == l = Len(Tr.ops) + 1 => PrintT("VERDICT" \o ToJson([t |-> t, n |-> l - 1, bad |-> bad]))
=============================================================================
