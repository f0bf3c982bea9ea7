------------------------------ MODULE MC_Comm -------------------------------
(* All partitioned, grouped graphs with N elements: the channels derived     *)
(* independently by every partition fit together.                            *)
EXTENDS Comm, TLC
CONSTANTS N, NP, NT
VARIABLES adj, pa, tg
E == 0..(N - 1)
Edges == { e \in SUBSET E : Cardinality(e) = 2 }
\* neighbours of e in ascending order, padded with -1
Row(es, e) == LET nb == { x \in E : {x, e} \in es }
                  rank(x) == Cardinality({ y \in nb : y < x })
              IN [f \in 1..(N - 1) |-> IF f > Cardinality(nb) THEN -1 ELSE CHOOSE x \in nb : rank(x) = f - 1]
Init == /\ \E es \in SUBSET Edges : adj = [e \in 1..N |-> Row(es, e - 1)]
        /\ pa \in [1..N -> 0..(NP - 1)]
        /\ tg \in [1..N -> 0..(NT - 1)]
Next == FALSE /\ UNCHANGED <<adj, pa, tg>>
P == 0..(NP - 1)
Mirrored == \A p \in P : \A c \in Channels(adj, pa, tg, p) :
    /\ c[2] # p
    /\ Mirror(p, c) \in Channels(adj, pa, tg, c[2])
    /\ Cardinality(FacesOf(adj, pa, tg, p, c)) = Cardinality(FacesOf(adj, pa, tg, c[2], Mirror(p, c)))
    /\ UNION { Twins(adj, x) : x \in FacesOf(adj, pa, tg, p, c) } = FacesOf(adj, pa, tg, c[2], Mirror(p, c))
Complete == \A p \in P : UNION { FacesOf(adj, pa, tg, p, c) : c \in Channels(adj, pa, tg, p) } = CommFaces(adj, pa, p)
SendElements == \A e \in E : Send(adj, pa, e) <=> \E x \in CommFaces(adj, pa, pa[e + 1]) : x[1] = e
=============================================================================
