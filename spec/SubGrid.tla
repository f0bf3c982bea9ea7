------------------------------- MODULE SubGrid -------------------------------
(* Sub-grids of the reference elements.  An element of order p is divided into *)
(* n^dim sub-cells, n = 2 p - 1; all coordinates are multiples of 1/n and      *)
(* scaled by n.  Faces of elements (and sub-cells) are given by the element's  *)
(* vertices, counter-clockwise if seen from the outside.                       *)
EXTENDS Integers, Sequences, FiniteSets
Types == { "line", "tria", "quad", "tet", "hex" }
Dim(ty) == CASE ty = "line" -> 1 [] ty \in {"tria", "quad"} -> 2 [] OTHER -> 3
Simplex(ty) == ty \in { "line", "tria", "tet" }
\* vertices of the reference elements (numbered from zero)
Ref(ty) ==
  CASE ty = "line" -> << << 0 >>, << 1 >> >>
    [] ty = "tria" -> << << 0, 0 >>, << 1, 0 >>, << 0, 1 >> >>
    [] ty = "quad" -> << << 0, 0 >>, << 1, 0 >>, << 1, 1 >>, << 0, 1 >> >>
    [] ty = "tet"  -> << << 0, 0, 0 >>, << 1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >> >>
    [] ty = "hex"  -> << << 0, 0, 0 >>, << 1, 0, 0 >>, << 1, 1, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >>, << 1, 0, 1 >>, << 1, 1, 1 >>, << 0, 1, 1 >> >>
Faces(ty) ==
  CASE ty = "line" -> << << 0 >>, << 1 >> >>
    [] ty = "tria" -> << << 0, 1 >>, << 1, 2 >>, << 2, 0 >> >>
    [] ty = "quad" -> << << 0, 1 >>, << 1, 2 >>, << 2, 3 >>, << 3, 0 >> >>
    [] ty = "tet"  -> << << 0, 2, 1 >>, << 0, 1, 3 >>, << 0, 3, 2 >>, << 1, 2, 3 >> >>
    [] ty = "hex"  -> << << 0, 3, 2, 1 >>, << 0, 1, 5, 4 >>, << 1, 2, 6, 5 >>, << 3, 7, 6, 2 >>, << 0, 4, 7, 3 >>, << 4, 5, 6, 7 >> >>
NFa(ty) == Len(Faces(ty))
\* sub-cells of hexahedra are stored dimension by dimension
Local(ty, v) == IF ty # "hex" THEN v ELSE (CASE v = 2 -> 3 [] v = 3 -> 2 [] v = 6 -> 7 [] v = 7 -> 6 [] OTHER -> v)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
NCells(ty, n) == Pow(n, Dim(ty))
NSub(ty, n) == Pow(n, Dim(ty) - 1)
\* geometry
Rng(s) == { s[i] : i \in DOMAIN s }
Add(a, b) == [ i \in DOMAIN a |-> a[i] + b[i] ]
Sub(a, b) == [ i \in DOMAIN a |-> a[i] - b[i] ]
Mul(k, a) == [ i \in DOMAIN a |-> k * a[i] ]
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
Dot(a, b) == CASE Len(a) = 1 -> a[1] * b[1] [] Len(a) = 2 -> a[1] * b[1] + a[2] * b[2] [] OTHER -> a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Det(e) == CASE Len(e) = 1 -> e[1][1] [] Len(e) = 2 -> e[1][1] * e[2][2] - e[1][2] * e[2][1] [] OTHER -> Dot(e[1], Cross(e[2], e[3]))
\* a cell (sequence of points) has the shape of a sub-cell: simplices are oriented and have the right volume
CellOk(ty, c) ==
  /\ Len(c) = Len(Ref(ty))
  /\ IF Simplex(ty) THEN Det([ i \in 1..Dim(ty) |-> Sub(c[i + 1], c[1]) ]) = 1
     ELSE \A v \in 0..(Len(c) - 1) : c[Local(ty, v) + 1] = Add(c[1], Ref(ty)[v + 1])
\* point in the (closed) element
Sum(p) == CASE Len(p) = 1 -> p[1] [] Len(p) = 2 -> p[1] + p[2] [] OTHER -> p[1] + p[2] + p[3]
Inside(ty, n, p) == (\A i \in DOMAIN p : p[i] >= 0) /\ (IF Simplex(ty) THEN Sum(p) <= n ELSE \A i \in DOMAIN p : p[i] <= n)
\* inward normals of the faces, of sub-faces of tetrahedra also the two additional ones
Normal(ty, f) ==
  CASE ty = "line" -> << << 1 >>, << -1 >> >>[f]
    [] ty = "tria" -> << << 0, 1 >>, << -1, -1 >>, << 1, 0 >> >>[f]
    [] ty = "quad" -> << << 0, 1 >>, << -1, 0 >>, << 0, -1 >>, << 1, 0 >> >>[f]
    [] ty = "tet"  -> << << 0, 0, 1 >>, << 0, 1, 0 >>, << 1, 0, 0 >>, << -1, -1, -1 >>, << -1, -1, 0 >>, << -1, 0, -1 >> >>[f]
    [] ty = "hex"  -> << << 0, 0, 1 >>, << 0, 1, 0 >>, << -1, 0, 0 >>, << 0, -1, 0 >>, << 1, 0, 0 >>, << 0, 0, -1 >> >>[f]
NNormals(ty) == IF ty = "tet" THEN 6 ELSE NFa(ty)
\* a point of face f
Anchor(ty, n, f) == Mul(n, Ref(ty)[Faces(ty)[f][1] + 1])
OnFace(ty, n, f, p) == Dot(Normal(ty, f), Sub(p, Anchor(ty, n, f))) = 0
\* the face f (set of points) with the point q off it: side of q with respect to direction d
SideOf(d, face, q) == LET a == CHOOSE x \in face : TRUE IN Dot(d, Sub(q, a))
Flat(d, face) == \A x, y \in face : Dot(d, Sub(x, y)) = 0
\* local coordinates of face f: origin in the face's first vertex, axes along the edges to the second and last one
FaceAxes(ty, f) ==
  LET F == Faces(ty)[f]
      o == Ref(ty)[F[1] + 1] IN
  CASE Dim(ty) = 1 -> << >>
    [] Dim(ty) = 2 -> << Sub(Ref(ty)[F[2] + 1], o) >>
    [] OTHER -> << Sub(Ref(ty)[F[2] + 1], o), Sub(Ref(ty)[F[Len(F)] + 1], o) >>
ChiSet(ty, n) ==
  CASE Dim(ty) = 1 -> { << >> }
    [] Dim(ty) = 2 -> { << i >> : i \in 0..n }
    [] ty = "tet" -> { c \in ((0..n) \X (0..n)) : c[1] + c[2] <= n }
    [] OTHER -> (0..n) \X (0..n)
PointOf(ty, n, f, chi) ==
  LET A == FaceAxes(ty, f)
      o == Anchor(ty, n, f) IN
  CASE Dim(ty) = 1 -> o
    [] Dim(ty) = 2 -> Add(o, Mul(chi[1], A[1]))
    [] OTHER -> Add(Add(o, Mul(chi[1], A[1])), Mul(chi[2], A[2]))
ChiOf(ty, n, f) == [ p \in { PointOf(ty, n, f, c) : c \in ChiSet(ty, n) } |-> CHOOSE c \in ChiSet(ty, n) : PointOf(ty, n, f, c) = p ]
\* the adjacent element sees the face reversed; v: its vertex (of the face) which is the first one here
NOr(ty) == IF Dim(ty) = 3 THEN Len(Faces(ty)[1]) ELSE 1
Adjacent(ty, n, v, c) ==
  CASE Dim(ty) = 1 -> c
    [] Dim(ty) = 2 -> << n - c[1] >>
    [] ty = "tet" ->
         LET l == << n - c[1] - c[2], c[1], c[2] >>
             m == [ i \in 0..2 |-> l[((v - i + 3) % 3) + 1] ]
         IN << m[1], m[2] >>
    [] OTHER ->
         CASE v = 0 -> << c[2], c[1] >>
           [] v = 1 -> << n - c[1], c[2] >>
           [] v = 2 -> << n - c[2], n - c[1] >>
           [] v = 3 -> << c[1], n - c[2] >>
=============================================================================
