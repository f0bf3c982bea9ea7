----------------------------- MODULE MC_SubGrid ------------------------------
(* Regular sub-grids of all element types: a walker steps from sub-cell to     *)
(* sub-cell over the sub-faces, and leaves the element to an adjacent one,     *)
(* glued to any face in any orientation, where it has to arrive at the same    *)
(* place.                                                                       *)
EXTENDS SubGrid, TLC
CONSTANTS TYS, NS
VARIABLES ty, n, cell, out
vars == << ty, n, cell, out >>
\* sub-cells as sets of vertices
Up(p) == { Add(p, x) : x \in Rng(Ref("tet")) }
Box(k) == IF k = 1 THEN { << i >> : i \in 0..1 } ELSE IF k = 2 THEN (0..1) \X (0..1) ELSE (0..1) \X (0..1) \X (0..1)
Origins(t, m) == CASE Dim(t) = 1 -> { << i >> : i \in 0..(m - 1) } [] Dim(t) = 2 -> (0..(m - 1)) \X (0..(m - 1)) [] OTHER -> (0..(m - 1)) \X (0..(m - 1)) \X (0..(m - 1))
\* parts of a box: the octahedron between the upward and downward tetrahedron is divided into four
Parts(t) ==
  CASE t = "tria" -> { << << 0, 0 >>, << 1, 0 >>, << 0, 1 >> >>, << << 1, 0 >>, << 1, 1 >>, << 0, 1 >> >> }
    [] t = "tet" -> { << << 0, 0, 0 >>, << 1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >> >>,
                      << << 1, 0, 1 >>, << 1, 1, 1 >>, << 1, 1, 0 >>, << 0, 1, 1 >> >>,
                      << << 1, 0, 0 >>, << 1, 1, 0 >>, << 0, 1, 0 >>, << 0, 1, 1 >> >>,
                      << << 1, 0, 0 >>, << 1, 0, 1 >>, << 0, 1, 1 >>, << 0, 0, 1 >> >>,
                      << << 0, 1, 0 >>, << 0, 1, 1 >>, << 0, 0, 1 >>, << 1, 0, 0 >> >>,
                      << << 1, 0, 0 >>, << 1, 1, 0 >>, << 0, 1, 1 >>, << 1, 0, 1 >> >> }
    [] OTHER -> { Ref(t) }
CellsOf(t, m) == { c \in { [ i \in DOMAIN p |-> Add(o, p[i]) ] : o \in Origins(t, m), p \in Parts(t) } : \A i \in DOMAIN c : Inside(t, m, c[i]) }
Tab == [ t \in TYS |-> [ m \in NS |-> CellsOf(t, m) ] ]
Face(t, c, f) == { c[v + 1] : v \in Rng(Faces(t)[f]) }
Nbs(t, m, c, f) == { d \in Tab[t][m] : d # c /\ \E g \in 1..NFa(t) : Face(t, d, g) = Face(t, c, f) }
Outer(t, m, c, f) == { k \in 1..NFa(t) : \A p \in Face(t, c, f) : OnFace(t, m, k, p) }
\* weights of the face's vertices in a point of the face
Weights(t, m, x) ==
  CASE Dim(t) = 1 -> << m >>
    [] Dim(t) = 2 -> << m - x[1], x[1] >>
    [] t = "tet" -> << m - x[1] - x[2], x[1], x[2] >>
    [] OTHER -> << (m - x[1]) * (m - x[2]), x[1] * (m - x[2]), x[1] * x[2], (m - x[1]) * x[2] >>
Init == /\ ty \in TYS /\ n \in NS /\ out = << >>
        /\ cell = CHOOSE c \in Tab[ty][n] : TRUE
Cross1 == /\ out = << >>
          /\ \E f \in 1..NFa(ty) : \E d \in Nbs(ty, n, cell, f) : cell' = d
          /\ UNCHANGED << ty, n, out >>
\* out: own face, the adjacent element's face, orientation, own and adjacent place of the sub-face
Leave == /\ out = << >>
         /\ \E f \in 1..NFa(ty) : \E k \in Outer(ty, n, cell, f) : \E g \in 1..NFa(ty) : \E v \in 0..(NOr(ty) - 1) :
              LET here == { ChiOf(ty, n, k)[p] : p \in Face(ty, cell, f) } IN
              out' = << k, g, v, here, { Adjacent(ty, n, v, x) : x \in here } >>
         /\ UNCHANGED << ty, n, cell >>
Next == Cross1 \/ Leave
Spec == Init /\ [][Next]_vars
Tiling ==
  /\ CellOk(ty, [ i \in DOMAIN cell |-> cell[Local(ty, i - 1) + 1] ])
  /\ \A f \in 1..NFa(ty) :
       LET nb == Nbs(ty, n, cell, f)
           o == Outer(ty, n, cell, f) IN
       /\ Cardinality(nb) + Cardinality(o) = 1
       /\ \A d \in nb : LET q == CHOOSE x \in Rng(cell) : x \notin Face(ty, cell, f)
                            r == CHOOSE x \in Rng(d) : x \notin Face(ty, cell, f) IN
            \E k \in 1..NNormals(ty) : Flat(Normal(ty, k), Face(ty, cell, f)) /\ SideOf(Normal(ty, k), Face(ty, cell, f), q) * SideOf(Normal(ty, k), Face(ty, cell, f), r) < 0
Counted == Cardinality(Tab[ty][n]) = NCells(ty, n)
\* the adjacent element has a sub-cell at the place where the walker arrives, and it is the same point in space
Arrives ==
  out = << >> \/
  LET g == out[2]  v == out[3] IN
  /\ \E d \in Tab[ty][n] : \E h \in 1..NFa(ty) : Face(ty, d, h) = { PointOf(ty, n, g, x) : x \in out[5] }
  /\ \A x \in out[4] :
       LET y == Adjacent(ty, n, v, x)
           k == Len(Faces(ty)[1])
           w == Weights(ty, n, x)
           u == Weights(ty, n, y) IN
       /\ Adjacent(ty, n, v, y) = x
       /\ \A i \in 0..(k - 1) : u[((IF Dim(ty) = 2 THEN 1 - i ELSE (v - i + k) % k)) + 1] = w[i + 1]
\* sub-faces have the same places on all faces
SamePlaces == out = << >> \/ \A f \in 1..NFa(ty) : \E d \in Tab[ty][n] : \E h \in 1..NFa(ty) : Face(ty, d, h) = { PointOf(ty, n, f, x) : x \in out[4] }
Inv == Tiling /\ Counted /\ Arrives /\ SamePlaces
=============================================================================
