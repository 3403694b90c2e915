--------------------------- MODULE RealSpaceTrace ---------------------------
(***************************************************************************)
(* Recorded executions of the real-space modules.  The plan is replayed on *)
(* the specification; with EXPORT set the expression of every place after  *)
(* every step is printed (for evaluation), otherwise the recorded events   *)
(* are judged: an event [step, b, op, err, same, obs], obs a sequence of   *)
(* [p, v]: v "ok" (the expected content), "known" (separations as in the   *)
(* known finding), "bad" or "missing"; same: nothing else has changed.     *)
(***************************************************************************)
EXTENDS RealSpace, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Exporting == IOEnv.EXPORT = "yes"
VARIABLES t, l, v, k, bad
tvars == <<t, l, v, k, bad>>
Tr == Traces[t]
c == Tr.cfg
NoSep == [p \in {} |-> 0]
TInit == t \in DOMAIN Traces /\ l = 1 /\ v = [b \in RBlocks |-> RStart(Tr.u0[b])] /\ k = [b \in RBlocks |-> NoSep] /\ bad = <<>>
\* k[b]: separations as the known finding has them
KAfter(b, op) == CASE op \in {"W", "D"} -> Upd(k[b], Place(OutSec(op, c), "rp"), L("rp|" \o op))
                   [] op \in {"CW", "CD"} /\ Accepts(v[b], op, c) ->
                        LET m == IF op = "CW" THEN "W" ELSE "D" p == Place(OutSec(m, c), "rp") IN Upd(k[b], p, KnownSep(k[b][p], m, c))
                   [] OTHER -> k[b]
Shown(e) == PrintT("EXPR" \o ToJson([t |-> t, l |-> l, k |-> k'[e.b],
               put |-> [p \in Writes(e.op, c) |-> v'[e.b][p]]]))
Clauses(e) ==
   LET ok == Accepts(v[e.b], e.op, c) IN
   IF e.err # "" /\ ok THEN <<<<l, "raised", e.op>>>>
   ELSE IF e.err = "" /\ ~ok THEN <<<<l, "accepted", e.op>>>>
   ELSE IF e.same # "" THEN <<<<l, "altered", e.same>>>>
   ELSE IF ~ok THEN <<>>
   ELSE IF {e.obs[i].p : i \in DOMAIN e.obs} # Writes(e.op, c) THEN <<<<l, "machinery", e.op>>>>
   ELSE LET w == SelectSeq(e.obs, LAMBDA o : o.v # "ok") IN [i \in DOMAIN w |-> <<l, w[i].v, w[i].p>>]
TStep == /\ l <= Len(Tr.ops) /\ l' = l + 1 /\ UNCHANGED t
        /\ LET e == Tr.ops[l] IN
             /\ v' = [v EXCEPT ![e.b] = RAfter(v[e.b], e.op, c)]
             /\ k' = [k EXCEPT ![e.b] = KAfter(e.b, e.op)]
             /\ IF Exporting THEN bad' = bad /\ (Accepts(v[e.b], e.op, c) => Shown(e))
                ELSE bad' = IF Len(bad) > 8 THEN bad ELSE bad \o Clauses(e)
TSpec == TInit /\ [][TStep]_tvars
Report == l = Len(Tr.ops) + 1 /\ ~Exporting => PrintT("VERDICT" \o ToJson([t |-> t, n |-> l - 1, bad |-> bad]))
=============================================================================
