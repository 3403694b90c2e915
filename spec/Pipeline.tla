------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* A sampler driving pipeline modules: each module is set up once with a   *)
(* configuration and then executed on point after point.  The output of an *)
(* execution is a function of the configuration, the point, and, in        *)
(* non-linear bias mode, the point at which the bias was last refreshed;   *)
(* the refresh happens on calls 0, n, 2n, ... of that module.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
PModules == 1..2
PCfgs == 1..3
\* base; everything changed; one value changed; optional values taken away; a value needed is missing; values next to those of base
PPoints == {"base", "other", "one", "less", "missing", "near"}
Unset == [cfg |-> 0, calls |-> 0, src |-> "-"]
\* interval[c] = 0: the configuration does not use the non-linear bias
SetUp(st, m, cf) == [st EXCEPT ![m] = [cfg |-> cf, calls |-> 0, src |-> "-"]]
NewSrc(x, p, n) == IF n = 0 THEN "-" ELSE IF x.calls % n = 0 THEN p ELSE x.src
Exec(st, m, p, n) == [st EXCEPT ![m] = [@ EXCEPT !.calls = @ + 1, !.src = NewSrc(st[m], p, n)]]
Key(x, p) == ToString(x.cfg) \o "|" \o p \o "|" \o x.src       \* x: state of the module after the call
=============================================================================
