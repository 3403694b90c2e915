------------------------------ MODULE CacheCheck ------------------------------
(***************************************************************************)
(* Instances of CacheProtocol: a small model object whose quantities       *)
(* branch, nest and can fail, in the shape of onepower's (mode -> term ->  *)
(* spectrum).                                                              *)
(*    lin   = f(a)                     like the linear power spectrum      *)
(*    term  = mode=0: f(lin, b)        like a halo-model term, whose       *)
(*            mode=1: f(lin, c)        ingredients depend on the mode      *)
(*    spec  = f(term, opt=0: -, opt=1: lin, c)                             *)
(*    ratio = f(spec, lin)             raises if c = 1 (an option that is  *)
(*                                     rejected while being read)          *)
(* mode and opt select a branch.  MODE says which scheme is checked.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, IOUtils

VARIABLE st
Mode == IOEnv.MODE
PN == {"mode", "opt", "a", "b", "c"}
QN == {"lin", "term", "spec", "ratio"}
B(q, v) == CASE q = "lin" -> <<"a">>
             [] q = "term" -> IF v["mode"] = 0 THEN <<"mode", "lin", "b">> ELSE <<"mode", "lin", "c">>
             [] q = "spec" -> IF v["opt"] = 0 THEN <<"opt", "term">> ELSE <<"term", "opt", "lin", "c">>
             [] OTHER -> <<"spec", "lin">>
F(q, v) == q = "ratio" /\ v["c"] = 1 /\ v["mode"] = 1

C == INSTANCE CacheProtocol WITH Pars <- PN, Qs <- QN, Vals <- 0..1, Body <- B, Fails <- F,
       Switch <- IF Mode = "noswitch" THEN {"opt"} ELSE {"mode", "opt"},
       Purge <- Mode # "nopurge", Direct <- Mode = "direct", MaxSet <- IF IOEnv.MAXSET = "1" THEN 1 ELSE 2
Spec == C!Spec
Refines == C!Refines
NoInternalError == C!NoInternalError
IndexComplete == C!IndexComplete
=============================================================================
