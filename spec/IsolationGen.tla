---------------------------- MODULE IsolationGen ----------------------------
EXTENDS Isolation, Json, IOUtils
ToNum(str) == CHOOSE n \in 0..20000 : ToString(n) = str
Depth == ToNum(IOEnv.DEPTH)
VARIABLES hist, done
vars == <<kind, ver, base, nver, hist, done>>
R(S) == RandomElement(S)
Init == IInit /\ hist = <<>> /\ done = FALSE
Take(op) == Step(op) /\ hist' = Append(hist, op) /\ done' = FALSE
SLive == {o \in Live : kind[o] = "S"}
Upd == {o \in Live : kind[o] # "H" /\ ~\E u \in Live : base[u] = o}
Comp == {o \in Live : kind[o] \in {"U", "V"}}
Next ==
  \/ /\ Len(hist) < Depth
     /\ \/ Free # {} /\ Len(hist) < 2 /\ Take(<<"new", NextObj, "S", 0, R(Pools)>>)
        \/ Free # {} /\ Len(hist) >= 2 /\ \E k \in Kinds \ {"U"} : Take(<<"new", NextObj, k, 0, R(Pools)>>)
        \/ Free # {} /\ SLive # {} /\ Take(<<"new", NextObj, "U", R(SLive), R(Pools)>>)
        \/ Free # {} /\ \E o \in Live : kind[o] # "H" /\ Take(<<"clone", o, NextObj>>)
        \/ Len(hist) >= 2 /\ \E o \in Upd : Take(<<"update", o, R(1..NChanges)>>)
        \/ Len(hist) >= 2 /\ \E o \in Upd : Take(<<"update", o, R(1..NChanges)>>)
        \/ \E o \in Comp : Take(<<"component", o, R(1..NChanges)>>)
        \/ Len(hist) >= 1 /\ \E o \in Live, g \in 1..NGroups : Take(<<"read", o, g>>)
  \/ Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<kind, ver, base, nver, hist>>
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("PLAN" \o ToJson([ops |-> hist]))
=============================================================================
