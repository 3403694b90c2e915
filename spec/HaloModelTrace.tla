--------------------------- MODULE HaloModelTrace ---------------------------
(***************************************************************************)
(* Judges recorded comparisons of the code with HaloModel.  An event is    *)
(* the reading of one part of one spectrum of an object in configuration   *)
(* Cfg(i, v), with the identities of the observed value and of the value   *)
(* of the expression Terms(s, Cfg(i, v))[part]; equal identities mean      *)
(* equal values.  The verdict is total: every event that is not allowed    *)
(* is reported, and every part of every wanted spectrum of every selected  *)
(* configuration has to occur.                                             *)
(***************************************************************************)
EXTENDS HaloModelCheck

Events == JsonDeserialize(IOEnv.TRACE)

VARIABLES l, seen, bad
tvars == <<i, v, l, seen, bad>>

Ev == Events[l]
Has(s, p, cc) == Terms(s, cc)[p].op # "none"
Clause(e) ==
   CASE e.cfg # Cfg(e.i, e.v) -> "machinery"
     [] e.part \notin Parts \/ e.s \notin Spectra -> "machinery"
     [] e.err # "" -> "raised"
     [] ~Has(e.s, e.part, e.cfg) -> IF e.obs = 0 THEN "" ELSE "unexpected"
     [] e.obs = 0 -> "missing"
     [] e.obs # e.pred -> "composition"
     [] OTHER -> ""

TInit == i = 1 /\ v = 0 /\ l = 1 /\ seen = {} /\ bad = <<>>
TNext == /\ l <= Len(Events)
         /\ l' = l + 1
         /\ LET e == Ev IN
              /\ seen' = seen \cup {<<e.i, e.v, e.s, e.part>>}
              /\ bad' = IF Clause(e) = "" THEN bad ELSE Append(bad, <<l, Clause(e), e.s \o "." \o e.part>>)
         /\ UNCHANGED <<i, v>>
TSpec == TInit /\ [][TNext]_tvars

Needed == {<<a, b, WantedSpectra[n], p>> : a \in 1..Len(MainSeq), b \in 0..NVar, n \in DOMAIN WantedSpectra, p \in Parts}
Report == l = Len(Events) + 1 =>
   PrintT("VERDICT" \o ToJson([n |-> l - 1, bad |-> bad,
        missing |-> Cardinality({x \in Needed : Selected(Cfg(x[1], x[2]))} \ seen)]))
=============================================================================
