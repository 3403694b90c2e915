--------------------------- MODULE IsolationTrace ---------------------------
(***************************************************************************)
(* Events carry, after each operation: pars, the content of the parameters *)
(* of every live object; ins, of every caller-owned input; hand, of every  *)
(* result handed out so far; and obs, the quantities just read.            *)
(***************************************************************************)
EXTENDS Isolation, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, pars, ins, hand, known, bad
vars == <<kind, ver, base, nver, t, l, pars, ins, hand, known, bad>>
Tr == Traces[t]
Key(o) == <<kind[o] \in {"U", "V"}, ver[o]>>
TInit == t \in DOMAIN Traces /\ l = 1 /\ IInit /\ pars = <<>> /\ ins = Traces[t].ins /\ hand = <<>> /\ known = {} /\ bad = <<>>
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
Known(v, q) == {k \in known : k[1] = v /\ k[2] = q}
Clause(op, e) ==
   IF e.err # "" THEN <<"raised", op[1]>>
   ELSE IF e.ins # ins THEN <<"input", Tr.names[CHOOSE i \in DOMAIN ins : e.ins[i] # ins[i]]>>
   ELSE IF ~IsPrefixOf(hand, e.hand) THEN <<"handedout", Tr.hnames[CHOOSE i \in DOMAIN hand : e.hand[i] # hand[i]]>>
   ELSE IF \E o \in DOMAIN pars : o \notin Subject(op) /\ e.pars[o] # pars[o] THEN <<"parameters", op[1]>>
   ELSE IF op[1] = "clone" /\ e.pars[op[3]] # e.pars[op[2]] THEN <<"clone", "parameters">>
   ELSE IF op[1] = "read" /\ \E i \in DOMAIN e.obs : \E k \in Known(ver[op[2]], e.obs[i][1]) : k[3] # e.obs[i][2]
        THEN <<"results", e.obs[CHOOSE i \in DOMAIN e.obs : \E k \in Known(ver[op[2]], e.obs[i][1]) : k[3] # e.obs[i][2]][1]>>
   ELSE <<>>
StepT == /\ l <= Len(Tr.ops)
         /\ LET e == Tr.ops[l]  op == e.op IN
              /\ Step(op)
              /\ bad' = IF Clause(op, e) = <<>> THEN bad ELSE Append(bad, <<l>> \o Clause(op, e))
              /\ pars' = e.pars /\ ins' = e.ins /\ hand' = e.hand
              /\ known' = IF op[1] # "read" THEN known
                          ELSE known \cup {<<ver[op[2]], e.obs[i][1], e.obs[i][2]>> : i \in {j \in DOMAIN e.obs : Known(ver[op[2]], e.obs[j][1]) = {}}}
         /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][StepT]_vars
Report == l = Len(Tr.ops) + 1 => PrintT("VERDICT" \o ToJson([t |-> t, n |-> l - 1, bad |-> bad]))
=============================================================================
