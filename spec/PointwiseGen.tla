---------------------------- MODULE PointwiseGen ----------------------------
(***************************************************************************)
(* Behaviours: every request over the points up to length Full is asked of *)
(* a new object; and random chains of changed requests of up to MaxLen.    *)
(* Cut into pieces of Piece requests, each starting with every point alone.*)
(***************************************************************************)
EXTENDS Pointwise, Json, IOUtils
ToNum(str) == CHOOSE n \in 0..20000 : ToString(n) = str
Full == ToNum(IOEnv.FULL)
NChain == ToNum(IOEnv.NCHAIN)
Piece == 9
FullSeq == SetToSeq(UNION {[1..n -> Points] : n \in 2..Full})
Alone == [n \in 1..Cardinality(Points) |-> <<"new", <<SetToSeq(Points)[n]>> >>]
NFull == (Len(FullSeq) + Piece - 1) \div Piece
VARIABLES hist, id, left
vars == <<req, hist, id, left>>
GInit == /\ PInit /\ hist = <<>>
         /\ id \in (1..NFull) \X {"full"} \cup (1..NChain) \X {"chain"}
         /\ left = Len(Alone) + (IF id[2] = "full" THEN Piece ELSE 6)
NextOp == LET n == Len(hist) + 1 IN
   IF n <= Len(Alone) THEN Alone[n]
   ELSE IF id[2] = "full" THEN LET m == (id[1] - 1) * Piece + n - Len(Alone) IN
           IF m <= Len(FullSeq) THEN <<"new", FullSeq[m]>> ELSE <<>>
   ELSE <<IF n = Len(Alone) + 1 THEN "new" ELSE "change",
          [j \in 1..RandomElement(1..MaxLen) |-> RandomElement(Points)]>>
GNext == /\ left > 0
         /\ LET o == NextOp IN
              IF o = <<>> THEN left' = 0 /\ UNCHANGED <<req, hist, id>>
              ELSE /\ IF o[1] = "new" THEN New(o[2]) ELSE Change(o[2])
                   /\ hist' = Append(hist, o) /\ left' = left - 1 /\ UNCHANGED id
GSpec == GInit /\ [][GNext]_vars
TypeOK == req = <<>> \/ req \in Requests
Emit == left = 0 => PrintT("PLAN" \o ToJson([id |-> id, ops |-> hist]))
=============================================================================
