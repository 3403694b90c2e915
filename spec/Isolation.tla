------------------------------ MODULE Isolation ------------------------------
(***************************************************************************)
(* Several model objects living side by side.                              *)
(*                                                                         *)
(* Objects are built from a pool of caller-owned inputs (option            *)
(* dictionaries and arrays) that several of them share, cloned from one    *)
(* another, or components of a combined model.  The state of an object is  *)
(* a version, replaced by a new one only by an update of that very object. *)
(* Inputs and results already handed out have a content that no operation  *)
(* changes.                                                                *)
(*                                                                         *)
(* kinds: S spectra, U combined model around an existing spectra object,   *)
(*        V combined model building its own components, A alignment        *)
(*        calculator, B non-linear bias, H occupation model                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxObj, MaxVer
Kinds == {"S", "U", "V", "A", "B", "H"}
Pools == 1..2                    \* variants of the shared inputs
NGroups == 4                     \* groups of quantities to read
NChanges == 6                    \* changes an update can make
Objs == 1..MaxObj

VARIABLES kind, ver, base, nver
ivars == <<kind, ver, base, nver>>
Live == {o \in Objs : kind[o] # "-"}
Free == Objs \ Live
NextObj == CHOOSE o \in Free : \A x \in Free : o <= x

IInit == kind = [o \in Objs |-> "-"] /\ ver = [o \in Objs |-> 0] /\ base = [o \in Objs |-> 0] /\ nver = 0
New(o, k, b) == /\ o \in Free /\ (k = "U" => b \in Live /\ kind[b] = "S") /\ (k # "U" => b = 0)
                /\ kind' = [kind EXCEPT ![o] = k] /\ ver' = [ver EXCEPT ![o] = nver + 1] /\ nver' = nver + 1
                /\ base' = [base EXCEPT ![o] = b]
\* a clone has the version, i.e. the parameters and results, of its original
Clone(o, x) == /\ o \in Live /\ kind[o] # "H" /\ x \in Free
               /\ kind' = [kind EXCEPT ![x] = IF kind[o] = "U" THEN "V" ELSE kind[o]]
               /\ ver' = [ver EXCEPT ![x] = ver[o]] /\ base' = base /\ nver' = nver
\* an object that is a component of a combined model is not updated behind its back
Update(o, c) == /\ o \in Live /\ kind[o] # "H" /\ ~\E u \in Live : base[u] = o
                /\ ver' = [ver EXCEPT ![o] = nver + 1] /\ nver' = nver + 1 /\ UNCHANGED <<kind, base>>
\* the second component of a combined model belongs to that model
Component(u, c) == /\ u \in Live /\ kind[u] \in {"U", "V"}
                   /\ ver' = [ver EXCEPT ![u] = nver + 1] /\ nver' = nver + 1 /\ UNCHANGED <<kind, base>>
Read(o, g) == o \in Live /\ UNCHANGED ivars

Step(op) == CASE op[1] = "new" -> New(op[2], op[3], op[4])
              [] op[1] = "clone" -> Clone(op[2], op[3])
              [] op[1] = "update" -> Update(op[2], op[3])
              [] op[1] = "component" -> Component(op[2], op[3])
              [] op[1] = "read" -> Read(op[2], op[3])
              [] OTHER -> FALSE
\* the object an operation may change
Subject(op) == IF op[1] \in {"update", "component"} THEN {op[2]} ELSE {}

\* frame condition of the abstract machine, checked as an action property
OnlySubject == [][\A o \in Live : ver'[o] # ver[o] => \E x \in Objs : ver'[x] # ver[x] /\ \A y \in Objs \ {x} : kind[y] # "-" => ver'[y] = ver[y]]_ivars
VersionsShared == \A a, b \in Live : ver[a] = ver[b] => kind[a] = kind[b] \/ {kind[a], kind[b]} = {"U", "V"}
=============================================================================
