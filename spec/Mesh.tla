-------------------------------- MODULE Mesh --------------------------------
(* Semantics of a conforming mesh: elements are sets of vertices, faces are  *)
(* the vertex sets given by the reference element, two elements are adjacent *)
(* through a face iff both have it.  All derived connectivity, the periodic  *)
(* identification of boundary faces and the geometric quantities are         *)
(* functions of the elements and the (integer) vertex coordinates.           *)
EXTENDS Integers, Sequences, FiniteSets

\* reference elements: faces as sequences of local vertices (0-based)
RefFaces(ty) ==
  CASE ty = "tria" -> <<<<0,1>>, <<1,2>>, <<2,0>>>>
    [] ty = "quad" -> <<<<0,1>>, <<1,2>>, <<2,3>>, <<3,0>>>>
    [] ty = "tet"  -> <<<<0,2,1>>, <<0,1,3>>, <<0,3,2>>, <<1,2,3>>>>
    [] ty = "hex"  -> <<<<0,3,2,1>>, <<0,1,5,4>>, <<1,2,6,5>>, <<3,7,6,2>>, <<0,4,7,3>>, <<4,5,6,7>>>>
\* faces of a cell in the order of the mesh file format (any vertex order of the file)
FileFaces(ty) ==
  CASE ty = "tria" -> {<<0,1>>, <<1,2>>, <<2,0>>}
    [] ty = "quad" -> {<<0,1>>, <<1,2>>, <<2,3>>, <<3,0>>}
    [] ty = "tet"  -> {<<0,1,2>>, <<0,1,3>>, <<0,2,3>>, <<1,2,3>>}
    [] ty = "hex"  -> {<<0,1,2,3>>, <<0,1,5,4>>, <<1,2,6,5>>, <<2,3,7,6>>, <<3,0,4,7>>, <<4,5,6,7>>}

SetOf(s) == { s[i] : i \in 1..Len(s) }
\* vertices of local face f (1-based) of a cell given as a sequence of vertices
FaceSeq(ty, cell, f) == [i \in 1..Len(RefFaces(ty)[f]) |-> cell[RefFaces(ty)[f][i] + 1]]
FaceSet(ty, cell, f) == SetOf(FaceSeq(ty, cell, f))
NFaces(ty) == Len(RefFaces(ty))
FileFaceSets(ty, cell) == { { cell[f[i] + 1] : i \in 1..Len(f) } : f \in FileFaces(ty) }

\* integer geometry -----------------------------------------------------------
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Det3(a, b, c) == Dot(a, Cross(b, c))
AbsI(x) == IF x < 0 THEN -x ELSE x
\* floor of the square root, 0 <= n < 2^31
RECURSIVE SqrtIn(_, _, _)
SqrtIn(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN SqrtIn(n, m, hi) ELSE SqrtIn(n, lo, m - 1)
ISqrt(n) == SqrtIn(n, 0, 46340)

MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
Extent(P, d) == MaxS({ p[d] : p \in P }) - MinS({ p[d] : p \in P })
=============================================================================
