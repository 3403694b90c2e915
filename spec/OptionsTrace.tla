---------------------------- MODULE OptionsTrace ----------------------------
(***************************************************************************)
(* Events: create / try, with set = TRUE if the call itself raised, and    *)
(* failed = the results that could not be computed afterwards (all of them *)
(* were asked for), finite = those computed are finite, same = they equal  *)
(* those of a newly created object with the specified valuation.           *)
(***************************************************************************)
EXTENDS Options, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad
vars == <<kind, val, named, state, t, l, bad>>
Tr == Traces[t]
TInit == t \in DOMAIN Traces /\ l = 1 /\ bad = <<>> /\ kind = Tr.kind /\ val = Default(Tr.kind) /\ named = {} /\ state = "ok"
Failed(e) == SeqSet(e.failed)
Clause(e) ==
   IF state' = "ok" THEN
      IF e.set THEN <<"refused", "set">>
      ELSE IF Failed(e) # {} THEN <<"refused", CHOOSE x \in Failed(e) : TRUE>>
      ELSE IF ~e.finite THEN <<"notfinite", kind>>
      ELSE IF ~e.same THEN <<"recovery", kind>>
      ELSE <<>>
   ELSE IF e.set \/ Broken(kind, val') \subseteq Failed(e) THEN <<>>
   ELSE <<"accepted", CHOOSE x \in Broken(kind, val') \ Failed(e) : TRUE>>
Step == /\ l <= Len(Tr.ops)
        /\ LET e == Tr.ops[l] IN
             /\ IF e.op = "create" THEN /\ val' = Upd(Default(kind), e.c) /\ kind' = kind
                                        /\ state' = IF Supported(kind, val') THEN "ok" ELSE "rejected"
                                        /\ named' = IF state' = "ok" THEN {} ELSE DOMAIN val
                ELSE Try(e.c)
             /\ bad' = IF Clause(e) = <<>> THEN bad ELSE Append(bad, <<l>> \o Clause(e))
        /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][Step]_vars
Report == l = Len(Tr.ops) + 1 => PrintT("VERDICT" \o ToJson([t |-> t, n |-> l - 1, bad |-> bad]))
=============================================================================
