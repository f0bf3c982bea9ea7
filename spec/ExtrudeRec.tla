----------------------------- MODULE ExtrudeRec ------------------------------
(* Surfaces written by EDGEcut: points with identical coordinates are one.     *)
(* pts: column, row and height (0 bottom, 1 input surface, 2 between).         *)
EXTENDS RecCheck
S == INSTANCE Surface
C(name, cond) == IF cond THEN {} ELSE {name}
All(r) == r.left \o r.right \o r.front \o r.back \o r.bottom \o r.top
SetOf(s) == { s[i] : i \in DOMAIN s }
Headers(r) == \A i \in 0..5 : r.hd[5 * i + 1] = 1 /\ r.hd[5 * i + 2] = r.hd[5 * i + 3] /\ r.hd[5 * i + 4] = r.hd[5 * i + 5]
Pt(r, p) == r.pts[p]
Ids(r) == \A t \in SetOf(All(r)) : \A k \in 1..3 : t[k] >= 1 /\ t[k] <= Len(r.pts)
TopPts(r) == { Pt(r, p) : p \in SetOf(r.vid[6]) }
OnSide(r, i, d, v) == \A p \in SetOf(r.vid[i]) : Pt(r, p)[d] = v
Area(r, t) == S!Area2(Pt(r, t[1]), Pt(r, t[2]), Pt(r, t[3]))
Shape(r) ==
  LET T == SetOf(All(r)) IN
  C("an edge is not shared by exactly two triangles in opposite directions", S!Closed(T, Len(All(r))))
  \cup C("not a sphere", S!Euler(T) = 2)
  \cup C("orientation", (\A t \in SetOf(r.top) : Area(r, t) > 0) /\ (\A t \in SetOf(r.bottom) : Area(r, t) < 0))
Bad(r) ==
  C("counts of a header", Headers(r))
  \cup C("points of the top surface", Len(r.vid[6]) = r.nx * r.ny /\ TopPts(r) = { << i, j, 1 >> : i \in 0..(r.nx - 1), j \in 0..(r.ny - 1) })
  \cup C("depth of the bottom", \A p \in SetOf(r.vid[5]) : Pt(r, p)[3] = 0)
  \cup C("positions", (\A p \in SetOf(r.pts) : p[1] >= 0 /\ p[2] >= 0 /\ p[3] # 3) /\ OnSide(r, 1, 1, 0) /\ OnSide(r, 2, 1, r.nx - 1) /\ OnSide(r, 3, 2, 0) /\ OnSide(r, 4, 2, r.ny - 1))
  \cup (IF Ids(r) THEN Shape(r) ELSE {"vertex of a facet"})
RecNext == RecStepSet(Bad)
RecSpec == RecInit /\ [][RecNext]_recno
=============================================================================
