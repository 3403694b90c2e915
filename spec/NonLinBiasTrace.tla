--------------------------- MODULE NonLinBiasTrace ---------------------------
(* Judges recorded requests: got[i] is the set of descriptions ("same", "lo", "hi") that fit what the emulator received. *)
EXTENDS NonLinBias, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad
vars == <<req, emu, t, l, bad>>
Tr == Traces[t]
InSeq(x, s) == \E i \in DOMAIN s : s[i] = x
Rq(e) == [amp |-> e.amp, lev |-> e.lev]
TInit == t \in DOMAIN Traces /\ l = 1 /\ bad = <<>> /\ req = Rq(Traces[t].ops[1]) /\ emu = Given(req)
Wrong(e) == {i \in DOMAIN Inputs : ~InSeq(emu'[i], e.got[i])}
\* sigma8 is reproduced whenever the amplitude for it is supported
Sig(e) == e.amp = "sigma8" /\ e.lev[4] \in {"lo", "in", "hi"}
Clauses(e) ==
   CASE e.err # "" -> <<"raised", e.amp>>
     [] Wrong(e) # {} -> <<"clamp", Inputs[CHOOSE i \in Wrong(e) : \A j \in Wrong(e) : i <= j]>>
     [] Sig(e) /\ ~e.sigma -> <<"sigma8", e.amp>>
     [] ~e.sym -> <<"symmetry", "bnl">>
     [] ~e.shape -> <<"shape", "bnl">>
     [] ~e.perz -> <<"redshift", "bnl">>
     [] OTHER -> <<>>
Step == /\ l <= Len(Tr.ops)
        /\ LET e == Tr.ops[l] IN
             /\ Request(Rq(e))
             /\ bad' = IF Clauses(e) = <<>> THEN bad ELSE Append(bad, <<l>> \o Clauses(e))
        /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][Step]_vars
Report == l = Len(Tr.ops) + 1 => PrintT("VERDICT" \o ToJson([t |-> t, n |-> l - 1, bad |-> bad]))
=============================================================================
