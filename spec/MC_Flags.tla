------------------------------ MODULE MC_Flags ------------------------------
(* All graphs with N elements, partitionings and groupings: what a partition *)
(* derives from its adjacency, layout and channels is what the whole mesh    *)
(* says, and the flags of both sides of a face mirror each other.            *)
EXTENDS Comm, TLC
CONSTANTS N, NP, NT
F == INSTANCE Flags
VARIABLES adj, pa, tg
E == 0..(N - 1)
Edges == { e \in SUBSET E : Cardinality(e) = 2 }
Row(es, e) == LET nb == { x \in E : {x, e} \in es }
                  rank(x) == Cardinality({ y \in nb : y < x })
              IN [f \in 1..(N - 1) |-> IF f > Cardinality(nb) THEN -1 ELSE CHOOSE x \in nb : rank(x) = f - 1]
Init == /\ \E es \in SUBSET Edges : adj = [e \in 1..N |-> Row(es, e - 1)]
        /\ pa \in [1..N -> 0..(NP - 1)]
        /\ tg \in [1..N -> 0..(NT - 1)]
Next == FALSE /\ UNCHANGED <<adj, pa, tg>>
\* the partition's elements in storage order
Own(p, t, s) == { e \in E : pa[e + 1] = p /\ tg[e + 1] = t /\ Send(adj, pa, e) = s }
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f[n]
Order(p) == Cat([t \in 1..NT |-> Asc(Own(p, t - 1, FALSE))], NT) \o Cat([t \in 1..NT |-> Asc(Own(p, t - 1, TRUE))], NT)
NIn(p) == [t \in 1..NT |-> Cardinality(Own(p, t - 1, FALSE))]
NSe(p) == [t \in 1..NT |-> Cardinality(Own(p, t - 1, TRUE))]
Pos(o, e) == IF \E i \in 1..Len(o) : o[i] = e THEN (CHOOSE i \in 1..Len(o) : o[i] = e) - 1 ELSE -1
LocalAdj(o) == [i \in 1..Len(o) |-> [f \in 1..(N - 1) |-> LET n == adj[o[i] + 1][f] IN IF n = -1 THEN -1 ELSE Pos(o, n)]]
\* channels and their faces in any fixed order
RECURSIVE AnySeq(_)
AnySeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AnySeq(S \ {x})
ChSeq(p) == AnySeq(Channels(adj, pa, tg, p))
ChFaces(p) == LET c == ChSeq(p) IN [i \in 1..Len(c) |-> AnySeq(FacesOf(adj, pa, tg, p, c[i]))]
Local(p) == LET o == Order(p)  c == ChSeq(p)  fs == ChFaces(p)  all == Cat(fs, Len(fs)) IN
  [ o |-> o, nIn |-> NIn(p), nSe |-> NSe(p), adj |-> LocalAdj(o),
    chs |-> [i \in 1..Len(c) |-> <<c[i][1], c[i][2], c[i][3], Len(fs[i])>>],
    se |-> [i \in 1..Len(all) |-> Pos(o, all[i][1])], sf |-> [i \in 1..Len(all) |-> all[i][2] - 1] ]
Global(e, f) == LET n == adj[e + 1][f + 1] IN IF n = -1 THEN "eq" ELSE F!Rel(tg[e + 1], tg[n + 1])
Derived == \A p \in 0..(NP - 1) : LET L == Local(p) IN \A i \in 1..Len(L.o) : \A f \in 0..(N - 2) :
              F!LocalRel(L.nIn, L.nSe, L.chs, L.se, L.sf, L.adj, i - 1, f) = Global(L.o[i], f)
Unique == \A p \in 0..(NP - 1) : LET L == Local(p) IN \A i \in 1..Len(L.o) : \A f \in 0..(N - 2) :
              Cardinality(F!ChanGroups(L.chs, L.se, L.sf, i - 1, f)) <= 1
=============================================================================
