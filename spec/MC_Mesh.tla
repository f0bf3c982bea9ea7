------------------------------ MODULE MC_Mesh -------------------------------
(* The face matching of the preprocessor as an algorithm: all element faces  *)
(* (sorted vertex tuple, element) are sorted lexicographically; a pair of    *)
(* consecutive entries with equal vertices becomes an inner face, any other  *)
(* entry a boundary face.  For every set of triangles of a W x H grid (all   *)
(* diagonals) in every element order of the sort this yields exactly the     *)
(* faces and adjacencies of Mesh.                                            *)
EXTENDS Mesh, TLC
CONSTANTS W, H
VARIABLES cells, list, faces, pc
vars == <<cells, list, faces, pc>>
V(i, j) == j * (W + 1) + i
Quads == (0..(W - 1)) \X (0..(H - 1))
Tris(q, d) == LET a == V(q[1], q[2]) b == V(q[1] + 1, q[2]) c == V(q[1] + 1, q[2] + 1) e == V(q[1], q[2] + 1) IN
              IF d THEN {{a, b, c}, {a, c, e}} ELSE {{a, b, e}, {b, c, e}}
Init == /\ \E dg \in [Quads -> BOOLEAN] : cells \in (SUBSET (UNION { Tris(q, dg[q]) : q \in Quads }) \ {{}})
        /\ list = { <<f, c>> : f \in { x \in SUBSET (0..((W + 1) * (H + 1) - 1)) : Cardinality(x) = 2 }, c \in cells } \cap { y \in (SUBSET (0..((W + 1) * (H + 1) - 1))) \X cells : y[1] \subseteq y[2] }
        /\ faces = {} /\ pc = "match"
Lo(f) == MinS(f)
Hi(f) == MaxS(f)
Less(f, g) == Lo(f) < Lo(g) \/ (Lo(f) = Lo(g) /\ Hi(f) < Hi(g))
\* take the next entry of the sorted list (entries with equal faces in any order) and its successor
Match == /\ pc = "match" /\ list # {}
         /\ \E x \in { y \in list : \A z \in list : ~Less(z[1], y[1]) } :
              LET rest == list \ {x}
                  nexts == { y \in rest : \A z \in rest : ~Less(z[1], y[1]) } IN
              \/ /\ nexts = {} \/ \A y \in nexts : y[1] # x[1]
                 /\ faces' = faces \cup {<<x[1], {x[2]}>>} /\ list' = rest
              \/ \E y \in nexts : /\ y[1] = x[1]
                                  /\ faces' = faces \cup {<<x[1], {x[2], y[2]}>>} /\ list' = rest \ {y}
         /\ UNCHANGED <<cells, pc>>
Done == pc = "match" /\ list = {} /\ pc' = "done" /\ UNCHANGED <<cells, list, faces>>
Next == Match \/ Done
Exact == pc = "done" => faces = { <<f, { c \in cells : f \subseteq c }>> : f \in { x \in SUBSET UNION cells : Cardinality(x) = 2 /\ \E c \in cells : x \subseteq c } }
=============================================================================
