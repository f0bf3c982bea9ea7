------------------------------- MODULE Sparse -------------------------------
(* Sparse entities: the dense entities 0..n-1 carry bit sets (sp); those     *)
(* which carry all bits of a type are numbered in dense order.  Everything   *)
(* the code derives is defined here without any reference to a traversal:    *)
(* the sparse id of an entity is the number of smaller entities of the type. *)
(* Sequences are indexed by the entity id + 1; -1 is the invalid marker.     *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, SequencesExt

Has(x, t) == (x & t) = t
Is(sp, t, e) == Has(sp[e + 1], t)
Ids(sp) == 0..(Len(sp) - 1)
OfType(sp, t) == { e \in Ids(sp) : Is(sp, t, e) }
SpId(sp, t, e) == IF e # -1 /\ Is(sp, t, e) THEN Cardinality({ d \in 0..(e - 1) : Is(sp, t, d) }) ELSE -1
\* the entities of the type in dense order
Enum(sp, t) == SetToSortSeq(OfType(sp, t), LAMBDA a, b : a < b)
CountIn(sp, t, f, n) == Cardinality({ e \in f..(f + n - 1) : Is(sp, t, e) })
RECURSIVE Before(_, _)
Before(s, i) == IF i = 1 THEN 0 ELSE s[i - 1] + Before(s, i - 1)       \* sum of the entries in front of entry i
Total(s) == Before(s, Len(s) + 1)

\* number per time group of the inner entities (which come first), and of the send entities
SpInner(sp, t, in) == [g \in 1..Len(in) |-> CountIn(sp, t, Before(in, g), in[g])]
SpSend(sp, t, in, se) == [g \in 1..Len(se) |-> CountIn(sp, t, Total(in) + Before(se, g), se[g])]
\* consecutive sub-regions
SubFirst(sp, t, first, sizes) == [i \in 1..Len(sizes) |-> CountIn(sp, t, 0, first + Before(sizes, i))]
SubSize(sp, t, first, sizes) == [i \in 1..Len(sizes) |-> CountIn(sp, t, first + Before(sizes, i), sizes[i])]
\* bits added inside of the entities and through an adjacency (adj: sequence of neighbours per entity)
Inherit(sp, in, out) == [i \in 1..Len(sp) |-> IF Has(sp[i], in) THEN sp[i] | out ELSE sp[i]]
Touched(sp0, adj, in) == { e \in UNION { Range(adj[i]) : i \in { j \in 1..Len(sp0) : Has(sp0[j], in) } } : e # -1 }
Propagate(sp0, sp1, adj, in, out) == LET T == Touched(sp0, adj, in) IN [i \in 1..Len(sp1) |-> IF (i - 1) \in T THEN sp1[i] | out ELSE sp1[i]]
\* links
SpDe(sp, t) == Enum(sp, t)
SpSp(sp, t0, t1) == LET E == Enum(sp, t0) IN [i \in 1..Len(E) |-> SpId(sp, t1, E[i])]
\* from every entity of type t0 to the type t1 among its neighbours
AdjDst(sp0, sp1, adj, t0, t1) == LET E == Enum(sp0, t0) IN [i \in 1..Len(E) |-> [a \in 1..Len(adj[E[i] + 1]) |-> SpId(sp1, t1, adj[E[i] + 1][a])]]
\* from every entity which has a neighbour of the type
AdjSst(n0, sp1, adj, t) ==
  LET E == SetToSortSeq({ e \in 0..(n0 - 1) : \E a \in 1..Len(adj[e + 1]) : adj[e + 1][a] # -1 /\ Is(sp1, t, adj[e + 1][a]) }, LAMBDA a, b : a < b)
  IN [i \in 1..Len(E) |-> [a \in 1..Len(adj[E[i] + 1]) |-> SpId(sp1, t, adj[E[i] + 1][a])]]
\* the compressed variant keeps the valid entries only
AdjDyn(sp0, sp1, adj, t0, t1) == LET L == AdjDst(sp0, sp1, adj, t0, t1) IN [i \in 1..Len(L) |-> SelectSeq(L[i], LAMBDA x : x # -1)]
\* layout of the entities: inner entities of all time groups, then the send regions; sizes are given
LayFirst(inner, send) == [g \in 1..Len(inner) |-> Before(inner, g)]
LaySend(inner, send) == [g \in 1..Len(inner) |-> [j \in 1..Len(send[g]) |->
   Total(inner) + Before([h \in 1..Len(send) |-> Total(send[h])], g) + Before(send[g], j)]]
=============================================================================
