----------------------------- MODULE SubGridRec ------------------------------
(* Sub-grids generated by EDGEpre.                                            *)
EXTENDS RecCheck
S == INSTANCE SubGrid
C(name, cond) == IF cond THEN {} ELSE {name}
SetOf(s) == { s[i] : i \in DOMAIN s }
NF(r) == S!NFa(r.ty)
NO(r) == Len(r.own)
P(r, v) == r.sv[v + 1]
Pts(r, s) == { P(r, v) : v \in SetOf(s) }
Cell(r, c) == [ i \in DOMAIN r.own[c] |-> P(r, r.own[c][i]) ]
\* vertices of face f of owned cell c
FV(r, c, f) == { r.own[c][S!Local(r.ty, v) + 1] : v \in SetOf(S!Faces(r.ty)[f]) }
\* receive cell of sub-face s (zero-based) of face f
RC(r, f, s) == (f - 1) * r.nsf + s
RFace(r, k) == SetOf(r.recv[k + 1])
Count(r) ==
  /\ r.nsf = S!NSub(r.ty, r.n) /\ r.nsc = S!NCells(r.ty, r.n) /\ NO(r) = r.nsc
  /\ Len(r.recv) = NF(r) * r.nsf
  /\ (r.osf # << >> => Len(r.osf) = NO(r) /\ Len(r.rsf) = Len(r.recv)) /\ Len(r.adj) = NO(r) + Len(r.recv) /\ Len(r.tysf) = NO(r)
  /\ \A c \in 1..NO(r) : (r.osf # << >> => Len(r.osf[c]) = NF(r)) /\ Len(r.adj[c]) = NF(r) /\ Len(r.tysf[c]) = NF(r)
  /\ \A k \in DOMAIN r.recv : Len(r.adj[NO(r) + k]) = NF(r)
  /\ \A c \in DOMAIN r.own : \A i \in DOMAIN r.own[c] : r.own[c][i] >= 0 /\ r.own[c][i] < Len(r.sv)
  /\ \A c \in DOMAIN r.recv : \A i \in DOMAIN r.recv[c] : r.recv[c][i] >= 0 /\ r.recv[c][i] < Len(r.sv)
Vertices(r) ==
  /\ Cardinality(SetOf(r.sv)) = Len(r.sv)
  /\ \A p \in SetOf(r.sv) : Len(p) = S!Dim(r.ty) /\ S!Inside(r.ty, r.n, p)
Cells(r) == /\ \A c \in 1..NO(r) : S!CellOk(r.ty, Cell(r, c))
            /\ Cardinality({ SetOf(r.own[c]) : c \in 1..NO(r) }) = NO(r)
SubFaces(r) == r.osf = << >> \/ \A c \in 1..NO(r) : \A f \in 1..NF(r) : SetOf(r.osf[c][f]) = FV(r, c, f)
RecvFaces(r) == r.rsf = << >> \/ \A k \in DOMAIN r.recv : \E F \in SetOf(r.rsf[k]) : SetOf(F) = SetOf(r.recv[k]) /\ \A G \in SetOf(r.rsf[k]) : G # F => SetOf(G) = {-1}
\* inner cells first, then the ones at the faces
AtFace(r, c) == \E f \in 1..NF(r) : r.adj[c][f] >= NO(r)
Order(r) == r.nin + r.nsend = NO(r) /\ \A c \in 1..NO(r) : AtFace(r, c) <=> c > r.nin
\* a point of cell c off its face f
Off(r, c, f) == P(r, CHOOSE v \in SetOf(r.own[c]) : v \notin FV(r, c, f))
OtherSide(r, c, f, d, g) ==
  LET face == Pts(r, [ i \in 1..Len(S!Faces(r.ty)[f]) |-> r.own[c][S!Local(r.ty, S!Faces(r.ty)[f][i]) + 1] ])
  IN \E k \in 1..S!NNormals(r.ty) :
       /\ S!Flat(S!Normal(r.ty, k), face)
       /\ S!SideOf(S!Normal(r.ty, k), face, Off(r, c, f)) * S!SideOf(S!Normal(r.ty, k), face, Off(r, d, g)) < 0
Shared(r) ==
  \A c \in 1..NO(r) : \A f \in 1..NF(r) :
    LET d == r.adj[c][f] + 1 IN
    /\ d >= 1 /\ d <= NO(r) + Len(r.recv) /\ d # c
    /\ IF d <= NO(r)
       THEN \E g \in 1..NF(r) : /\ r.adj[d][g] = c - 1 /\ FV(r, d, g) = FV(r, c, f)
                                /\ \A h \in 1..NF(r) : r.adj[d][h] = c - 1 => h = g
                                /\ OtherSide(r, c, f, d, g)
       ELSE /\ RFace(r, d - NO(r) - 1) = FV(r, c, f) /\ r.adj[d][1] = c - 1
Recvs(r) ==
  \A f \in 1..NF(r), s \in 0..(r.nsf - 1) :
    LET k == RC(r, f, s)
        a == r.adj[NO(r) + k + 1] IN
    /\ a[1] >= 0 /\ a[1] < NO(r) /\ (\A i \in 2..NF(r) : a[i] = -1)
    /\ Cardinality({ g \in 1..NF(r) : r.adj[a[1] + 1][g] = NO(r) + k }) = 1
    /\ Cardinality(RFace(r, k)) = Len(S!Faces(r.ty)[f])
    /\ \A v \in RFace(r, k) : S!OnFace(r.ty, r.n, f, P(r, v))
\* place of a sub-face in the coordinates of its face
Pos(r, f, s) == LET m == S!ChiOf(r.ty, r.n, f) IN { m[P(r, v)] : v \in RFace(r, RC(r, f, s)) }
PosTab(r) == [ f \in 1..NF(r) |-> LET m == S!ChiOf(r.ty, r.n, f) IN [ s \in 0..(r.nsf - 1) |-> { m[P(r, v)] : v \in RFace(r, RC(r, f, s)) } ] ]
Uniform(tab, r) == \A f \in 2..NF(r) : tab[f] = tab[1]
Reorder(tab, r) ==
  /\ Len(r.ad) = S!NOr(r.ty)
  /\ \A v \in 1..Len(r.ad) :
       /\ Len(r.ad[v]) = r.nsf
       /\ \A s \in 0..(r.nsf - 1) : /\ r.ad[v][s + 1] \in 0..(r.nsf - 1)
                                    /\ tab[1][r.ad[v][s + 1]] = { S!Adjacent(r.ty, r.n, v - 1, x) : x \in tab[1][s] }
Limits(r) == r.isf = << >> \/
  (Len(r.isf) = NF(r) /\ \A f \in 1..NF(r) : Len(r.isf[f]) = r.nsf /\ \A s \in 0..(r.nsf - 1) : SetOf(r.isf[f][s + 1]) = { P(r, v) : v \in RFace(r, RC(r, f, s)) })
\* types of the sub-faces
TyOk(r, c, f) ==
  LET t == r.tysf[c][f]
      d == r.adj[c][f]
      face == { P(r, v) : v \in FV(r, c, f) }
      k == (t - 2 * NF(r)) % S!NNormals(r.ty)
      left == (t - 2 * NF(r)) < S!NNormals(r.ty) IN
  IF d >= NO(r) THEN t = (d - NO(r)) \div r.nsf
  ELSE /\ t >= 2 * NF(r) /\ t < 2 * NF(r) + 2 * S!NNormals(r.ty)
       /\ S!Flat(S!Normal(r.ty, k + 1), face)
       /\ LET s == S!SideOf(S!Normal(r.ty, k + 1), face, Off(r, c, f)) IN IF left THEN s > 0 ELSE s < 0
TypesOk(r) == \A c \in 1..NO(r) : \A f \in 1..NF(r) : TyOk(r, c, f)
\* mappings of the reference element to the sub-cells: the vertices are mapped to the sub-cell's, volume elements are constant
Mapped(r) == r.img = << >> \/
  /\ Len(r.img) = NO(r) /\ Len(r.det) = NO(r)
  /\ \A c \in 1..NO(r) : /\ \A v \in 1..Len(S!Ref(r.ty)) : r.img[c][v] = Cell(r, c)[S!Local(r.ty, v - 1) + 1]
                         /\ SetOf(r.det[c]) = {1}
  /\ Len(r.rimg) = NF(r)
  /\ \A f \in 1..NF(r) : Len(r.rimg[f]) = r.nsf /\ Len(r.rdet[f]) = r.nsf /\ \A s \in 1..r.nsf :
       LET c == r.adj[NO(r) + RC(r, f, s - 1) + 1][1] + 1 IN r.rimg[f][s] = r.img[c] /\ SetOf(r.rdet[f][s]) = {1}
\* loaded by the solver: sub-cells at faces, sub-vertices of faces, position of operators' entries, sub-cells at points
Loaded(r) ==
  /\ r.opsbad = 0
  /\ (r.fasc # << >> => \A f \in 1..NF(r), s \in 0..(r.nsf - 1) : r.fasc[f][s + 1] = r.adj[NO(r) + RC(r, f, s) + 1][1])
  /\ (r.fsv # << >> => \A f \in 1..NF(r) :
        /\ Cardinality(SetOf(r.fr[f])) = Len(r.fr[f])
        /\ SetOf(r.fr[f]) = { v \in 0..(Len(r.sv) - 1) : S!OnFace(r.ty, r.n, f, P(r, v)) }
        /\ \A s \in 0..(r.nsf - 1) : Len(r.fsv[f][s + 1]) = Cardinality(RFace(r, RC(r, f, s))) /\ SetOf(r.fsv[f][s + 1]) = RFace(r, RC(r, f, s)))
  /\ (r.pt # << >> => \A c \in 1..NO(r) : r.pt[c] = c - 1)
Shape(r) ==
  C("sub-vertices", Vertices(r)) \cup C("shape of the sub-cells", Cells(r)) \cup C("faces of sub-cells", SubFaces(r)) \cup C("faces of receive sub-cells", RecvFaces(r))
Rest(r) ==
  LET rv == Recvs(r) IN
  C("sub-faces are not shared by two sub-cells", Shared(r)) \cup C("receive sub-cells", rv) \cup C("order of inner and send sub-cells", Order(r))
  \cup (IF rv THEN LET tab == PosTab(r) IN
                   C("sub-faces of the faces in different orders", Uniform(tab, r)) \cup C("order seen from the adjacent element", Reorder(tab, r))
                   \cup C("limits of the surface integrals", Limits(r)) \cup C("types of sub-faces", TypesOk(r)) \cup C("mappings to the sub-cells", Mapped(r)) \cup C("data loaded by the solver", Loaded(r))
        ELSE {})
Bad(r) ==
  IF ~ Count(r) THEN {"numbers of sub-cells, sub-faces or sub-vertices"}
  ELSE LET s == Shape(r) IN IF s # {} THEN s ELSE Rest(r)
RecNext == RecStepSet(Bad)
RecSpec == RecInit /\ [][RecNext]_recno
=============================================================================
