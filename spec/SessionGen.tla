----------------------------- MODULE SessionGen -----------------------------
(***************************************************************************)
(* Generates behaviours of Session for replay on the implementation.       *)
(*                                                                         *)
(*   walk  i      in profile i: read everything, then for each admissible  *)
(*                change (single or joint): one update that takes back the       *)
(*                previous change and makes this one, read everything; at  *)
(*                the end restore the profile and read.                    *)
(*   pair  i j k  read in profile i; switch to profile j; (sometimes:      *)
(*                read); make an admissible change; read everything;       *)
(*                switch back; read everything.                            *)
(*   order i g    in profile i: read group g of a newly created object,    *)
(*                then everything: no order of reading matters.            *)
(*   sim          random sessions (TLC -simulate): updates and reads       *)
(*                alternate on two objects, one possibly a clone.          *)
(* Every operation is executed as a Session action; Emit prints completed  *)
(* behaviours, Scripted states that every script is a Session behaviour.   *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

VARIABLES hist, script, sid
vars == <<val, hist, script, sid>>

ToNum(str) == CHOOSE n \in 0..20000 : ToString(n) = str
Seed == ToNum(IOEnv.SEED)
NPair == ToNum(IOEnv.NPAIR)
Depth == ToNum(IOEnv.DEPTH)
Mode == IOEnv.MODE
NP == Len(Profiles)
Prof(i) == Apply(Base, Profiles[i])

\* walks are cut into pieces of at most Chunk changes
Chunk == ToNum(IOEnv.CHUNK)
WalkOps(i, k) ==
  LET v0 == Prof(i)
      all == Changes(v0)
      ch == SubSeq(all, (k - 1) * Chunk + 1, IF k * Chunk < Len(all) THEN k * Chunk ELSE Len(all))
      vs == [n \in 0..Len(ch)+1 |-> IF n = 0 \/ n = Len(ch)+1 THEN v0 ELSE Apply(v0, ch[n])]
  IN IF ch = <<>> THEN <<>>
     ELSE <<Op("create", 1, Profiles[i]), Op("read", 1, Groups[1])>> \o
          FlattenS([n \in 1..Len(ch)+1 |-> <<Goto(1, vs[n-1], vs[n]), Op("read", 1, Groups[1])>>])

PairOps(i, j, n) ==
  LET u == Prof(i)  v == Prof(j)  ch == Singles(v)  c == ch[((n - 1) % Len(ch)) + 1]
      w == Apply(v, <<c>>)
      g == Groups[((n + j) % Len(Groups)) + 1]
  IN <<Op("create", 1, Profiles[i]), Op("read", 1, IF n % 3 = 0 THEN g ELSE Groups[1]), Goto(1, u, v)>>
     \o (IF n % 2 = 0 THEN <<Op("read", 1, g)>> ELSE <<>>)
     \o <<Goto(1, v, w), Op("read", 1, Groups[IF n % 4 = 1 THEN Len(Groups) ELSE 1]),
          Goto(1, w, u), Op("read", 1, Groups[1])>>

NChunk(i) == (Len(Changes(Prof(i))) + Chunk - 1) \div Chunk
OrderOps(i, g) == <<Op("create", 1, Profiles[i]), Op("read", 1, Groups[g]), Op("read", 1, Groups[1])>>
                  \o (IF g = 1 THEN <<>> ELSE <<Op("create", 2, Profiles[i]), Op("read", 2, Groups[g]), Op("read", 2, Groups[((g + i) % Len(Groups)) + 1])>>)

ScriptIds == CASE Mode = "walk" -> UNION {{<<i, k>> : k \in 1..NChunk(i)} : i \in 1..NP}
               [] Mode = "pair" -> {<<i, j, k>> \in (1..NP) \X (1..NP) \X (1..NPair) : i # j}
               [] Mode = "order" -> (1..NP) \X (1..Len(Groups))
               [] OTHER -> {<<>>}
Script(s) == CASE Mode = "walk" -> WalkOps(s[1], s[2])
               [] Mode = "pair" -> PairOps(s[1], s[2], Seed * 31 + s[1] * 7 + s[2] * 13 + s[3])
               [] Mode = "order" -> OrderOps(s[1], s[2])
               [] OTHER -> <<>>

Init == val = None0 /\ hist = <<>> /\ sid \in ScriptIds /\ script = Script(sid)

NextScript == /\ Len(hist) < Len(script)
              /\ Do(script[Len(hist) + 1])
              /\ hist' = Append(hist, script[Len(hist) + 1])
              /\ UNCHANGED <<script, sid>>

LiveObj == {x \in Obj : val[x] # Absent}
Take(e) == Do(e) /\ hist' = Append(hist, e) /\ UNCHANGED <<script, sid>>
\* a random valid single change of v, and a random double change (the identity if the draw is not valid)
Change1(v) == LET sg == Singles(v) IN IF sg = <<>> THEN v ELSE Apply(v, <<sg[RandomElement(1..Len(sg))]>>)
Change2(v) == Change1(Change1(v))
NextSim ==
  \/ /\ Len(hist) < Depth
     /\ LET n == Len(hist) IN
        IF n = 0 THEN \E i \in 1..NP : Take(Op("create", 1, Profiles[i]))
        ELSE IF n % 2 = 1 THEN \E o \in LiveObj, g \in RangeOf(Groups) : Take(Op("read", o, g))
        ELSE \E o \in LiveObj, kind \in 1..6 :
               CASE kind \in {1, 2} -> Take(Goto(o, val[o], Change1(val[o])))
                 [] kind = 3 -> Take(Goto(o, val[o], Change2(val[o])))
                 [] kind = 4 -> Take(Goto(o, val[o], Prof(RandomElement(1..NP))))
                 [] kind = 5 -> Take(Goto(o, val[o], Change1(Prof(RandomElement(1..NP)))))
                 [] OTHER -> IF Obj = LiveObj THEN Take(Goto(o, val[o], Change1(val[o])))
                             ELSE \E x \in Obj \ LiveObj :
                                    \/ Take(Op("clone", o, x))
                                    \/ Take(Op("create", x, Profiles[RandomElement(1..NP)]))
  \/ /\ Len(hist) = Depth /\ script = <<>>
     /\ script' = <<"done">> /\ UNCHANGED <<val, hist, sid>>

Next == IF Mode = "sim" THEN NextSim ELSE NextScript
Spec == Init /\ [][Next]_vars

Done == IF Mode = "sim" THEN script # <<>> ELSE hist # <<>> /\ Len(hist) = Len(script)
Emit == Done => PrintT("PLAN" \o ToJson([id |-> sid, ops |-> hist]))
Scripted == Mode # "sim" => (Len(hist) < Len(script) => Enabled(val, script[Len(hist) + 1]))
=============================================================================
