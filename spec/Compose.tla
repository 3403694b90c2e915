------------------------------- MODULE Compose -------------------------------
(***************************************************************************)
(* Enumerates configurations of a composition specification, checks the    *)
(* form of its expressions and exports them; and judges recorded           *)
(* comparisons of the values of the expressions with the results of the    *)
(* code (ComposeTrace).                                                    *)
(***************************************************************************)
EXTENDS Expr, Json, IOUtils
CONSTANTS CfgSeq,          \* the configurations
          QSeq(_),         \* the quantities of a configuration, as a sequence
          Term(_, _),      \* the expression of a quantity in a configuration
          LeafAx,          \* [leaf |-> set of axes]
          OutAx(_),        \* the axes a quantity may have
          Sound(_)         \* further conditions on the expressions of a configuration
VARIABLE i
GInit == i = 1
GNext == i < Len(CfgSeq) /\ i' = i + 1
GSpec == GInit /\ [][GNext]_i
c == CfgSeq[i]
QSet(x) == {QSeq(x)[n] : n \in DOMAIN QSeq(x)}
WellFormed == \A q \in QSet(c) : /\ LeavesOf(Term(q, c)) \subseteq DOMAIN LeafAx
                                 /\ AxesIn(Term(q, c), LeafAx) \subseteq OutAx(q)
AllSound == Sound(c)
Export == PrintT("CFG" \o ToJson([i |-> i, cfg |-> c, terms |-> [q \in QSet(c) |-> Term(q, c)]]))
=============================================================================
