------------------------------- MODULE CacheGen -------------------------------
(***************************************************************************)
(* Behaviours of CacheProtocol for replay on a real class with the same    *)
(* parameters and quantities (CacheCheck).  Reads carry the cache-free     *)
(* value, which the real read has to return.                               *)
(***************************************************************************)
EXTENDS CacheCheck, Json

VARIABLE hist
ToNum(s) == CHOOSE n \in 0..200 : ToString(n) = s
Depth == ToNum(IOEnv.DEPTH)
Pick(S) == {RandomElement(S)}
GInit == C!Init /\ hist = <<>>
GNext ==
  /\ Len(hist) < Depth
  /\ \E k \in Pick(1..5) :
     IF k <= 2
     THEN \E q \in Pick(QN) : /\ st' = C!Get(st, q, {}).s
                              /\ hist' = Append(hist, [op |-> "read", q |-> q, want |-> C!Pure(q, st.val)])
     ELSE \E n \in Pick(1..3) : \E as \in Pick([1..n -> PN \X (0..1)]) :
            /\ st' = C!Updated(st, as)
            /\ hist' = Append(hist, [op |-> "update", set |-> as])
GSpec == GInit /\ [][GNext]_<<st, hist>>
Emit == Len(hist) = Depth => PrintT("PLAN" \o ToJson(hist))
=============================================================================
