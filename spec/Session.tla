------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Sessions on model objects (Spectra, UpsampledSpectra, alignment         *)
(* calculators, NonLinearBias).                                            *)
(*                                                                         *)
(* The abstract state of an object is nothing but its parameter valuation  *)
(* -- a function from parameter names to value names.  A key of a          *)
(* dictionary parameter is a parameter of its own ("hod_params.A_cen"),    *)
(* its value "-" meaning that the key is absent.  Reading a quantity       *)
(* returns F(quantity, valuation): a function of the valuation and of      *)
(* nothing else.  There is no cache here on purpose; CacheProtocol.tla     *)
(* models the caching scheme of the implementation and shows when it       *)
(* implements this.                                                        *)
(*                                                                         *)
(* Operations (one per public call) are records [op, o, a]:                *)
(*    create  o a    construct object o deviating by assignments a         *)
(*    goto    o a    one update call: clear dictionaries a.clear, then     *)
(*                   make the assignments a.set in that order              *)
(*    clone   o a    copy object o to the name a                           *)
(*    read    o a    read the quantities of group a, in the group's order  *)
(*    reject  o a    an update that the class must refuse (a as in goto)   *)
(* Assignments are <<parameter, value name>>.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS
    Obj,          \* object names
    Base,         \* base valuation: [parameter |-> value name]
    Alts,         \* [parameter |-> set of alternative value names]
    ValidVal(_),  \* the valuations to be visited (accepted by the class and evaluable)
    DictKeys,     \* [dictionary parameter |-> set of its key-parameters]
    POrder,       \* the parameters as a sequence
    Joints,       \* sequence of changes of several parameters at once (each a sequence of assignments)
    Profiles,     \* sequence of deviations from Base: the option profiles
    Groups        \* sequence of names of groups of quantities

VARIABLE val      \* [Obj -> valuation or <<>>]; <<>> = not created

Absent == <<>>
Params == DOMAIN Base
RangeOf(s) == {s[i] : i \in DOMAIN s}
Values(p) == Alts[p] \cup {Base[p]}
JointValues(p) == UNION {{j[n][2] : n \in {m \in DOMAIN j : j[m][1] = p}} : j \in RangeOf(Joints)}

RECURSIVE Apply(_, _)
Apply(v, as) == IF as = <<>> THEN v
                ELSE Apply([v EXCEPT ![Head(as)[1]] = Head(as)[2]], Tail(as))
RECURSIVE ClearAll(_, _)
ClearAll(v, ds) == IF ds = <<>> THEN v
                   ELSE ClearAll([p \in Params |-> IF p \in DictKeys[Head(ds)] THEN "-" ELSE v[p]], Tail(ds))
Moved(v, a) == Apply(ClearAll(v, a.clear), a.set)

Op(k, o, a) == [op |-> k, o |-> o, a |-> a]

\* the update call that turns valuation u into v.  A key cannot be removed by an update, so its dictionary is
\* cleared and rebuilt.
IsKey(p) == \E d \in DOMAIN DictKeys : p \in DictKeys[d]
DictOf(p) == CHOOSE d \in DOMAIN DictKeys : p \in DictKeys[d]
ToClear(u, v) == {d \in DOMAIN DictKeys : \E p \in DictKeys[d] : u[p] # "-" /\ v[p] = "-"}
Goto(o, u, v) ==
   LET cl == ToClear(u, v)
   IN Op("goto", o, [clear |-> SetToSeq(cl),
                     set |-> SelectSeq([n \in 1..Len(POrder) |-> <<POrder[n], v[POrder[n]]>>],
                        LAMBDA a : v[a[1]] # "-" /\ (v[a[1]] # u[a[1]] \/ (IsKey(a[1]) /\ DictOf(a[1]) \in cl)))])

\* effect of an operation on the state, and when it is allowed
Enabled(v, e) ==
   CASE e.op = "create" -> v[e.o] = Absent /\ ValidVal(Apply(Base, e.a))
     [] e.op = "goto"   -> v[e.o] # Absent /\ ValidVal(Moved(v[e.o], e.a))
     [] e.op = "clone"  -> v[e.o] # Absent /\ v[e.a] = Absent
     [] e.op = "read"   -> v[e.o] # Absent
     [] OTHER -> FALSE
Effect(v, e) ==
   CASE e.op = "create" -> [v EXCEPT ![e.o] = Apply(Base, e.a)]
     [] e.op = "goto"   -> [v EXCEPT ![e.o] = Moved(@, e.a)]
     [] e.op = "clone"  -> [v EXCEPT ![e.a] = v[e.o]]
     [] OTHER -> v

None0 == [o \in Obj |-> Absent]
Do(e) == Enabled(val, e) /\ val' = Effect(val, e)

\* ---- single changes of a valuation that stay valid, in table order
RECURSIVE FlattenS(_)
FlattenS(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenS(Tail(ss))
AltSeq(p) == SetToSeq(Values(p))
AllAssign == FlattenS([n \in 1..Len(POrder) |->
                 [m \in 1..Len(AltSeq(POrder[n])) |-> <<POrder[n], AltSeq(POrder[n])[m]>>]])
Singles(v) == SelectSeq(AllAssign, LAMBDA a : v[a[1]] # a[2] /\ ValidVal(Apply(v, <<a>>)))

\* the changes a walk makes: every single one, and the joint ones that are possible at v
Changes(v) == LET sg == Singles(v)
              IN [n \in 1..Len(sg) |-> <<sg[n]>>]
                 \o SelectSeq(Joints, LAMBDA j : Apply(v, j) # v /\ ValidVal(Apply(v, j)))

\* ---- invariants of the abstract machine
TypeOK == \A o \in Obj : val[o] = Absent \/
             (DOMAIN val[o] = Params /\ \A p \in Params : val[o][p] \in Values(p) \cup JointValues(p) \cup {"-"})
AlwaysValid == \A o \in Obj : val[o] # Absent => ValidVal(val[o])
=============================================================================
