----------------------------- MODULE PipelineGen -----------------------------
(***************************************************************************)
(* Behaviours of two modules; exploration and generation.  History h is    *)
(* ghost: the schedule is checked against it.                              *)
(***************************************************************************)
EXTENDS Pipeline, Json
CONSTANTS MaxLen, Bnl,     \* Bnl: all configurations use the non-linear bias; otherwise none
          Variant          \* "": the specification; otherwise a faulty schedule (negative control)
VARIABLES st, interval, h
vars == <<st, interval, h>>
Points == IF Bnl THEN PPoints \ {"missing", "less"} ELSE PPoints
Init == st = [m \in PModules |-> Unset] /\ h = <<>>
        /\ interval \in [PCfgs -> IF Bnl THEN 1..3 ELSE {0}]
\* faulty schedules
VExec(m, p) == LET n == interval[st[m].cfg] x == st[m] IN
   CASE Variant = "" -> Exec(st, m, p, n)
     [] Variant = "late" -> [st EXCEPT ![m] = [@ EXCEPT !.calls = @ + 1, !.src = IF @ = "-" THEN p ELSE IF x.calls % n = 0 /\ x.calls > n THEN p ELSE @]]
     [] Variant = "shared" -> [k \in PModules |-> IF k = m THEN Exec(st, m, p, n)[m]
                                                  ELSE [st[k] EXCEPT !.src = IF st[k].cfg # 0 /\ x.calls % n = 0 THEN p ELSE @]]
     [] Variant = "once" -> [st EXCEPT ![m] = [@ EXCEPT !.calls = @ + 1, !.src = IF @ = "-" THEN p ELSE @]]
DoSetUp(m, cf) == /\ st' = SetUp(st, m, cf)
                  /\ h' = Append(h, [a |-> "setup", m |-> m, c |-> cf, p |-> "", key |-> ""]) /\ UNCHANGED interval
DoExec(m, p) == /\ st[m].cfg # 0 /\ st' = VExec(m, p)
                /\ h' = Append(h, [a |-> "exec", m |-> m, c |-> st[m].cfg, p |-> p, key |-> Key(st'[m], p)]) /\ UNCHANGED interval
Next == Len(h) < MaxLen /\ \E m \in PModules : (\E cf \in PCfgs : DoSetUp(m, cf)) \/ (\E p \in Points : DoExec(m, p))
Spec == Init /\ [][Next]_vars
\* random behaviours in which executions dominate
RNext == /\ Len(h) < MaxLen
         /\ \E m \in {RandomElement(PModules)} : \E k \in {RandomElement(1..7)} :
            IF st[m].cfg = 0 \/ k = 1 THEN \E cf \in {RandomElement(PCfgs)} : DoSetUp(m, cf) ELSE \E p \in {RandomElement(Points)} : DoExec(m, p)
RSpec == Init /\ [][RNext]_vars
\* long runs of few modules, the points mostly next to each other; longer intervals
LInit == st = [m \in PModules |-> Unset] /\ h = <<>> /\ interval \in [PCfgs -> IF Bnl THEN {1, 2, 4, 5, 7, 12} ELSE {0}]
LNext == /\ Len(h) < MaxLen
         /\ \E m \in {IF RandomElement(1..6) = 1 THEN 2 ELSE 1} : \E k \in {RandomElement(1..60)} :
            IF st[m].cfg = 0 \/ k = 1 THEN \E cf \in {RandomElement(PCfgs)} : DoSetUp(m, cf)
            ELSE \E p \in {RandomElement(IF k % 3 = 0 THEN Points ELSE {"base", "one", "near"})} : DoExec(m, p)
LSpec == LInit /\ [][LNext]_vars
Emit == Len(h) = MaxLen => PrintT("PLAN" \o ToJson([ops |-> h, interval |-> interval]))
-----------------------------------------------------------------------------
\* the property in terms of the history: calls of m since its last set-up; the refresh of call number i is at i - i % n
RECURSIVE Calls(_, _)
Calls(m, i) == IF i = 0 THEN <<>> ELSE IF h[i].m # m THEN Calls(m, i - 1)
               ELSE IF h[i].a = "setup" THEN <<>> ELSE Append(Calls(m, i - 1), h[i].p)
Schedule == \A m \in PModules : LET q == Calls(m, Len(h)) n == interval[st[m].cfg] IN
   (st[m].cfg # 0 /\ q # <<>>) => /\ st[m].calls = Len(q)
                                  /\ st[m].src = IF n = 0 THEN "-" ELSE q[Len(q) - ((Len(q) - 1) % n)]
\* without the non-linear bias an output depends on configuration and point only
NoHistory == ~Bnl => \A i \in 1..Len(h) : h[i].a = "exec" => h[i].key = ToString(h[i].c) \o "|" \o h[i].p \o "|-"
\* modules do not influence each other
Apart == [][\A m \in PModules : h'[Len(h')].m # m => st'[m] = st[m]]_vars
=============================================================================
