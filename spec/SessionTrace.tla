---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Validates recorded sessions against Session.                            *)
(*                                                                         *)
(* A trace is a sequence of events: the operations of Session with, for a  *)
(* read, the sequence obs of pairs <<quantity, value id>>.  Value ids are  *)
(* equal exactly for equal observed values.  The function F of Session is  *)
(* not logged; the trace specification learns F(quantity, valuation) at    *)
(* the first observation and from then on every observation of the same    *)
(* quantity at the same valuation -- by whichever object, after whatever   *)
(* history, including newly created objects -- has to agree with it.       *)
(*                                                                         *)
(* The verdict is total: bad collects <<position, clause, quantity>>.      *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, known, bad
vars == <<val, t, l, known, bad>>

\* objects above 100 are the newly created reference objects of the driver
Ev == Traces[t].ops[l]
V(e) == val[e.o]

\* known: at most one record [v |-> valuation, f |-> function quantity -> value id] per valuation
At(v) == {k \in known : k.v = v}
FunAt(v) == IF At(v) = {} THEN <<>> ELSE (CHOOSE k \in At(v) : TRUE).f
ObsFun(e) == LET D == {e.obs[i][1] : i \in DOMAIN e.obs}
             IN [q \in D |-> e.obs[CHOOSE i \in DOMAIN e.obs : e.obs[i][1] = q][2]]
Conflicts(e, f) == {i \in DOMAIN e.obs : e.obs[i][1] \in DOMAIN f /\ f[e.obs[i][1]] # e.obs[i][2]}
Learned(e, f) == (known \ At(V(e))) \cup {[v |-> V(e), f |-> f @@ ObsFun(e)]}

TInit == /\ t \in DOMAIN Traces /\ l = 1 /\ val = None0 /\ known = {} /\ bad = <<>>

Clause(e) ==
   CASE e.ok = FALSE          -> <<"raised", e.err>>       \* the call failed although the specification allows it
     [] ~Enabled(val, e)      -> <<"machinery", e.op>>     \* the driver did something the specification does not know
     [] e.exc # ""            -> <<"raised", e.exc>>       \* a quantity of an evaluable object could not be read
     [] e.op = "read" -> LET c == Conflicts(e, FunAt(V(e)))
                         IN IF c = {} THEN <<>> ELSE <<"history", e.obs[CHOOSE i \in c : \A j \in c : i <= j][1]>>
     [] OTHER -> <<>>

Step == /\ l <= Len(Traces[t].ops)
        /\ LET e == Ev  c == Clause(e) IN
             /\ val' = IF Enabled(val, e) /\ e.ok THEN Effect(val, e) ELSE val
             /\ known' = IF e.op = "read" /\ c = <<>> THEN Learned(e, FunAt(V(e))) ELSE known
             /\ bad' = IF c = <<>> THEN bad ELSE Append(bad, <<l, c[1], c[2]>>)
             /\ l' = l + 1 /\ UNCHANGED t

TSpec == TInit /\ [][Step]_vars

Report == l = Len(Traces[t].ops) + 1 =>
             PrintT("VERDICT" \o ToJson([t |-> t, n |-> l - 1, known |-> Cardinality(known), bad |-> bad]))
=============================================================================
