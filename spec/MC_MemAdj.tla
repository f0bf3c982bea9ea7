------------------------------ MODULE MC_MemAdj ------------------------------
(* Face data of two ranks p = 0, 1 which share elements: the message a rank  *)
(* sends lists the same faces in the same order as the one the other rank    *)
(* receives, and every relevant face has exactly one place.                  *)
(* Global entities 1..N belong to rank own[i]; adjacency ad is symmetric.    *)
EXTENDS Memory, TLC, FiniteSetsExt, SequencesExt
CONSTANTS N, NF
VARIABLES own, g, sp
Ent == 1..N
\* symmetric adjacencies: faces of the two sides name each other
RECURSIVE Match(_)
Match(S) == IF S = {} THEN {<<>>} ELSE LET x == CHOOSE y \in S : TRUE IN
  { (x :> <<0, 0>>) @@ m : m \in Match(S \ {x}) }
  \cup UNION { { (x :> y) @@ (y :> x) @@ m : m \in Match(S \ {x, y}) } : y \in { z \in S : z[1] # x[1] } }
Adjs == Match(Ent \X (1..NF))
Init == own \in [Ent -> {0, 1}] /\ g \in Adjs /\ sp \in [Ent -> BOOLEAN]
Next == UNCHANGED <<own, g, sp>>
Spec == Init /\ [][Next]_<<own, g, sp>>
Cross(e, p) == \E f \in 1..NF : g[<<e, f>>][1] # 0 /\ own[g[<<e, f>>][1]] # own[e]
Sorted(S) == SetToSortSeq(S, <)
\* local numbering of rank p: inner, send, receive
Loc(p) == Sorted({ e \in Ent : own[e] = p /\ ~ Cross(e, p) }) \o Sorted({ e \in Ent : own[e] = p /\ Cross(e, p) }) \o Sorted({ e \in Ent : own[e] # p /\ Cross(e, p) })
Id(l, e) == IF \E i \in DOMAIN l : l[i] = e THEN (CHOOSE i \in DOMAIN l : l[i] = e) - 1 ELSE -1
AdL(p) == LET l == Loc(p) IN [ i \in DOMAIN l |-> [ f \in 1..NF |-> IF g[<<l[i], f>>][1] = 0 THEN -1 ELSE
             \* receive entities only know their owned neighbors
             IF own[l[i]] # p /\ own[g[<<l[i], f>>][1]] # p THEN -1 ELSE Id(l, g[<<l[i], f>>][1]) ] ]
SpL(p) == LET l == Loc(p) IN [ i \in DOMAIN l |-> IF sp[l[i]] THEN 0 ELSE -1 ]
Lay(p) == LET nI == Cardinality({ e \in Ent : own[e] = p /\ ~ Cross(e, p) })  nS == Cardinality({ e \in Ent : own[e] = p /\ Cross(e, p) })
              nR == Cardinality({ e \in Ent : own[e] # p /\ Cross(e, p) })
          IN << [in |-> <<0, nI>>, own |-> nI + nS, se |-> <<<<nI, nS>>>>, re |-> <<<<nI + nS, nR>>>>] >>
Glob(p, x) == <<Loc(p)[x[1] + 1], x[2]>>
Msg(p, part) == LET P == AdjParts(AdL(p), SpL(p), Lay(p)) IN [ i \in 1..Len(P[part]) |-> Glob(p, P[part][i]) ]
MessagesMatch == \A p \in {0, 1} : Msg(p, 3) = Msg(1 - p, 4)
OnePlace == \A p \in {0, 1} : LET o == AdjOrder(AdL(p), SpL(p), Lay(p))  a == AdL(p)  s == SpL(p) IN
              /\ Cardinality({ o[i] : i \in DOMAIN o }) = Len(o)
              /\ { o[i] : i \in DOMAIN o } = { x \in (0..(Len(a) - 1)) \X (0..(NF - 1)) : LET n == a[x[1] + 1][x[2] + 1] IN n >= 0 /\ (s[x[1] + 1] >= 0 \/ s[n + 1] >= 0) }
              /\ SendBounds(a, s, Lay(p), 1)[2] - SendBounds(a, s, Lay(p), 1)[1] = Len(Msg(p, 3))
              /\ RecvBounds(a, s, Lay(p), 1)[1] = SendBounds(a, s, Lay(p), 1)[2]
=============================================================================
