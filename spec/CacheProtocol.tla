--------------------------- MODULE CacheProtocol ---------------------------
(***************************************************************************)
(* The caching scheme on which every model object of onepower rests (hmf's *)
(* parameter / cached_quantity decorators with the update of               *)
(* onepower.utils.framework), and the conditions under which it implements *)
(* the cache-free machine of Session.tla.                                  *)
(*                                                                         *)
(* An object holds parameters and quantities.  A quantity reads parameters *)
(* and other quantities in an order that may depend on the values (its     *)
(* branch).  The object keeps for each quantity                            *)
(*    recalc   indexed quantities -> must it be computed again?            *)
(*    prpa     quantity -> parameters seen while it was indexed            *)
(*    papr     parameter -> quantities to be flagged when it changes       *)
(*    cache    quantity -> value                                           *)
(* The index of a quantity is written only when it is first computed after *)
(* creation or after it was dropped; a recalculation does not extend it.   *)
(* Changing a parameter flags the quantities in papr; changing a *switch*  *)
(* drops them, so that they are indexed again.                             *)
(*                                                                         *)
(* Values: the value of a parameter is a number, the value of a quantity   *)
(* the sequence of what it read -- so that two values are equal exactly if *)
(* the quantity saw the same things.  A quantity can also fail ("raise").  *)
(*                                                                         *)
(* Refines:  whatever the history, a read returns what the read of a newly *)
(* created object with the same valuation returns (value or failure).      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS
    Pars,            \* parameter names (strings)
    Qs,              \* quantity names
    Vals,            \* values of parameters
    Switch,          \* the parameters declared as switches
    Body(_, _),      \* Body(q, val): the sequence of names that q reads under val ...
    Fails(_, _),     \* ... and whether it raises after reading them
    Purge,           \* does update drop the flags of quantities without an index?
    Direct,          \* are parameters also set as attributes, bypassing update?
    MaxSet           \* at most this many assignments in one update

VARIABLE st          \* [val, recalc, prpa, papr, cache]; partial functions are sets of pairs via DOMAIN

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, x, v) == (x :> v) @@ f

Fresh(v) == [val |-> v, recalc |-> <<>>, prpa |-> <<>>, papr |-> [p \in Pars |-> {}], cache |-> <<>>, err |-> FALSE]

\* ---- the cache-free meaning
RECURSIVE Pure(_, _)
Failed == <<>>
Pure(q, v) ==
  IF q \in Pars THEN <<v[q]>>
  ELSE LET b == Body(q, v)
           got == [n \in 1..Len(b) |-> Pure(b[n], v)]
       IN IF (\E n \in 1..Len(b) : got[n] = Failed) \/ Fails(q, v) THEN Failed ELSE <<q, got>>

\* ---- reading with the cache: Get(s, x, active) = [s |-> state, v |-> value]
Mark(s, active, ps) == [s EXCEPT !.prpa = [r \in DOMAIN s.prpa |-> IF r \in active THEN s.prpa[r] \cup ps ELSE s.prpa[r]]]

RECURSIVE Get(_, _, _)
RECURSIVE GetAll(_, _, _, _)
GetAll(s, b, active, acc) ==      \* read the names of b in turn; stop at a failure
  IF b = <<>> THEN [s |-> s, v |-> acc, ok |-> TRUE]
  ELSE LET g == Get(s, Head(b), active)
       IN IF g.v = Failed THEN [s |-> g.s, v |-> acc, ok |-> FALSE]
          ELSE GetAll(g.s, Tail(b), active, Append(acc, g.v))

Compute(s, q, active) ==
  LET g == GetAll(s, Body(q, s.val), active, <<>>)
  IN IF ~g.ok \/ Fails(q, s.val) THEN [s |-> g.s, v |-> Failed]
     ELSE [s |-> [g.s EXCEPT !.cache = With(@, q, <<q, g.v>>)], v |-> <<q, g.v>>]

Get(s, x, active) ==
  IF x \in Pars THEN [s |-> Mark(s, active, {x}), v |-> <<s.val[x]>>]
  ELSE IF x \in DOMAIN s.recalc THEN
    IF active # {} /\ x \notin DOMAIN s.prpa THEN [s |-> [s EXCEPT !.err = TRUE], v |-> Failed]     \* KeyError in hmf
    ELSE LET s1 == IF active = {} THEN s ELSE Mark(s, active, s.prpa[x])
         IN IF ~s1.recalc[x] THEN [s |-> s1, v |-> s1.cache[x]]
            ELSE LET c == Compute(s1, x, active)
                 IN IF c.v = Failed THEN c ELSE [c EXCEPT !.s.recalc = With(@, x, FALSE)]
  ELSE LET s1 == [s EXCEPT !.prpa = With(@, x, {})]
           c == Compute(s1, x, active \cup {x})
       IN IF c.v = Failed
          THEN [s |-> [c.s EXCEPT !.prpa = Without(@, {x}), !.recalc = Without(@, {x}), !.cache = Without(@, {x}),
                                  !.papr = [p \in Pars |-> c.s.papr[p] \ {x}]],
                v |-> Failed]
          ELSE [s |-> [c.s EXCEPT !.recalc = With(@, x, FALSE),
                                  !.papr = [p \in Pars |-> IF p \in c.s.prpa[x] THEN c.s.papr[p] \cup {x} ELSE c.s.papr[p]]],
                v |-> c.v]

\* ---- setting
Set1(s, p, x) ==
  IF s.val[p] = x THEN s
  ELSE LET dep == s.papr[p]
           t == [s EXCEPT !.val[p] = x]
       IN IF p \in Switch
          THEN [t EXCEPT !.recalc = Without(@, dep), !.prpa = Without(@, dep), !.cache = Without(@, dep)]
          ELSE [t EXCEPT !.recalc = [q \in DOMAIN @ \cup dep |-> IF q \in dep THEN TRUE ELSE s.recalc[q]]]
RECURSIVE SetAll(_, _)
SetAll(s, as) == IF as = <<>> THEN s ELSE SetAll(Set1(s, Head(as)[1], Head(as)[2]), Tail(as))
Purged(s) == IF Purge THEN [s EXCEPT !.recalc = Without(@, DOMAIN @ \ DOMAIN s.prpa)] ELSE s
Updated(s, as) == Purged(SetAll(s, as))

Assigns == UNION {[1..n -> Pars \X Vals] : n \in 1..MaxSet}

V0 == [p \in Pars |-> CHOOSE x \in Vals : \A y \in Vals : x <= y]
Init == st = Fresh(V0)
Next == \/ \E q \in Qs : st' = Get(st, q, {}).s
        \/ \E as \in Assigns : st' = Updated(st, as)
        \/ Direct /\ \E p \in Pars, x \in Vals : st' = Set1(st, p, x)
Spec == Init /\ [][Next]_st

\* ---- what is shown
Refines == \A q \in Qs : Get(st, q, {}).v = Pure(q, st.val)
NoInternalError == ~st.err
\* the reason: whatever is cached and not flagged is indexed with every parameter it was computed from
RECURSIVE Leaves(_, _)
Leaves(q, v) == IF q \in Pars THEN {q} ELSE UNION {Leaves(Body(q, v)[n], v) : n \in 1..Len(Body(q, v))}
IndexComplete == \A q \in DOMAIN st.recalc : ~st.recalc[q] => \A p \in Leaves(q, st.val) : q \in st.papr[p]
=============================================================================
