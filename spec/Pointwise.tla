----------------------------- MODULE Pointwise -----------------------------
(***************************************************************************)
(* Evaluation of a list of points (galaxy samples, or redshifts) in one    *)
(* request.  A model answers a request r -- a non-empty sequence of points *)
(* -- with one answer per position, and the answer at a position is        *)
(* F(point at that position): a function of that point alone, whatever the *)
(* other points, their order or repetition, and whatever was requested     *)
(* before.  G is what does not depend on the points at all.                *)
(*                                                                         *)
(*   new r      a new object is made for request r and read                *)
(*   change r   the same object is given request r and read                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Points, MaxLen
VARIABLES req          \* the current request of the object, <<>> before the first
Requests == UNION {[1..n -> Points] : n \in 1..MaxLen}
PInit == req = <<>>
New(r) == r \in Requests /\ req' = r
Change(r) == req # <<>> /\ r \in Requests /\ req' = r
=============================================================================
