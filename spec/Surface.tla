------------------------------- MODULE Surface -------------------------------
(* Oriented triangle surfaces: a triangle is a triple of points, its edges are *)
(* directed.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets
EdgesOf(t) == { << t[1], t[2] >>, << t[2], t[3] >>, << t[3], t[1] >> }
Edges(T) == UNION { EdgesOf(t) : t \in T }
Points(T) == { e[1] : e \in Edges(T) }
\* no directed edge occurs twice (n: number of triangles, counting repetitions)
Simple(T, n) == Cardinality(T) = n /\ (\A e \in Edges(T) : e[1] # e[2]) /\ Cardinality(Edges(T)) = 3 * n
Border(T) == LET E == Edges(T) IN { e \in E : << e[2], e[1] >> \notin E }
Closed(T, n) == Simple(T, n) /\ Border(T) = {}
\* Euler's formula: V - E + F
Euler(T) == Cardinality(Points(T)) - Cardinality(Edges(T)) \div 2 + Cardinality(T)
\* twice the signed area of a triangle of points with integer positions in the plane
Area2(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (c[1] - a[1]) * (b[2] - a[2])
=============================================================================
