------------------------------ MODULE MeshRec -------------------------------
(* What the real mesh classes report for a generated mesh against Mesh.      *)
(* Clauses are prefixed by the property which they belong to.                *)
EXTENDS RecCheck, Mesh, Bitwise

\* a face which is tagged more than once carries all tags (bitwise)
RECURSIVE OrAll(_)
OrAll(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x | OrAll(S \ {x})

\* everything derived once per record -----------------------------------------
\* vertices, elements and faces keep the 0-based ids of the code in values; sequences are indexed by id + 1
NEl(r) == Len(r.elVe)
NFa(r) == Len(r.faVe)

\* output vertex id of every input vertex: matched by coordinates
VeId(r, crd) == [i \in 1..Len(r.pts) |-> CHOOSE v \in 0..(Len(crd) - 1) : crd[v + 1] = r.pts[i]]
CrdOk(r, crd, ex) == ex /\ Len(crd) = Len(r.pts) /\ SetOf(crd) = SetOf(r.pts)

\* faces of the input which more than one cell has, etc.
InFaces(r, vid) == UNION { { { vid[v + 1] : v \in fs } : fs \in FileFaceSets(r.ty, r.cells[c]) } : c \in 1..Len(r.cells) }

\* -1 is the absent element
Topology(r, px, crd, ex, elVe, faVe, faEl, elFa, elFaEl, sp) ==
  IF ~CrdOk(r, crd, ex) THEN {px \o " coordinates of the vertices"} ELSE
  LET vid == VeId(r, crd)
      nE == Len(elVe)
      nF == Len(faVe)
      nLF == NFaces(r.ty)
      inCells == { { vid[v + 1] : v \in SetOf(r.cells[c]) } : c \in 1..Len(r.cells) }
      ids(n) == 0..(n - 1)
      wellFormed == /\ nE = Len(r.cells) /\ Len(faEl) = nF /\ Len(elFa) = nE /\ Len(elFaEl) = nE /\ Len(sp) = nF
                    /\ \A e \in 1..nE : /\ Len(elFa[e]) = nLF /\ SetOf(elFa[e]) \subseteq ids(nF)
                                        /\ Len(elFaEl[e]) = nLF /\ SetOf(elFaEl[e]) \subseteq (ids(nE) \cup {-1})
                                        /\ SetOf(elVe[e]) \subseteq ids(Len(crd))
                    /\ \A f \in 1..nF : /\ Len(faEl[f]) = 2 /\ SetOf(faEl[f]) \subseteq (ids(nE) \cup {-1})
                                        /\ SetOf(faVe[f]) \subseteq ids(Len(crd))
  IN IF ~wellFormed THEN {px \o " numbers and ranges"} ELSE
  LET inF == InFaces(r, vid)
      fset == [e \in 1..nE |-> [f \in 1..nLF |-> FaceSet(r.ty, elVe[e], f)]]
      vset == [f \in 1..nF |-> SetOf(faVe[f])]
      \* owners of every face id: the (element, local face) pairs with its vertices
      owners == [f \in 1..nF |-> { x \in (1..nE) \X (1..nLF) : fset[x[1]][x[2]] = vset[f] }]
      tagOf == [s \in { { vid[v + 1] : v \in SetOf(r.tfVe[i]) } : i \in 1..Len(r.tfVe) } |->
                 OrAll({ r.tfTag[i] : i \in { j \in 1..Len(r.tfVe) : { vid[v + 1] : v \in SetOf(r.tfVe[j]) } = s } })]
      perFace(f) == r.per # 0 /\ sp[f] = r.per
  IN
    (IF { SetOf(elVe[e]) : e \in 1..nE } = inCells THEN {} ELSE {px \o " elements are the ones of the input"})
    \cup (IF { vset[f] : f \in 1..nF } = inF /\ Cardinality(inF) = nF THEN {} ELSE {px \o " every face listed once with its vertices"})
    \cup (IF \A e \in 1..nE : { fset[e][f] : f \in 1..nLF } \subseteq inF THEN {} ELSE {px \o " element vertices follow the reference element"})
    \cup (IF \A e \in 1..nE : \A f \in 1..nLF : vset[elFa[e][f] + 1] = fset[e][f] THEN {} ELSE {px \o " element to face in reference order"})
    \cup (IF \A f \in 1..nF : LET o == { x[1] - 1 : x \in owners[f] } IN
              IF perFace(f) THEN faEl[f][1] \in o
              ELSE /\ SetOf(faEl[f]) \ {-1} = o /\ faEl[f][1] # -1
                   /\ (Cardinality(o) = 1) = (faEl[f][2] = -1)
          THEN {} ELSE {px \o " face to element"})
    \cup (IF \A e \in 1..nE : \A f \in 1..nLF :
              LET fa == elFa[e][f] + 1 o == { x[1] - 1 : x \in owners[fa] } \ {e - 1} IN
              perFace(fa) \/ elFaEl[e][f] = (IF o = {} THEN -1 ELSE CHOOSE x \in o : TRUE)
          THEN {} ELSE {px \o " element to element"})
    \cup (IF \A f \in 1..nF : sp[f] = (IF vset[f] \in DOMAIN tagOf THEN tagOf[vset[f]] ELSE 0) THEN {} ELSE {px \o " face tags"})
    \* vertex order: counter-clockwise / positive orientation
    \cup (IF \A e \in 1..nE :
              LET p == [i \in 1..Len(elVe[e]) |-> crd[elVe[e][i] + 1]] IN
              CASE r.D = 2 -> \A i \in 2..(Len(p) - 1) : Cross(Sub(p[i], p[1]), Sub(p[i + 1], p[1]))[3] > 0
                [] r.ty = "tet" -> Det3(Sub(p[2], p[1]), Sub(p[3], p[1]), Sub(p[4], p[1])) > 0
                [] r.ty = "hex" -> /\ Det3(Sub(p[2], p[1]), Sub(p[4], p[1]), Sub(p[5], p[1])) > 0
                                   /\ \A d \in 1..3 : p[7][d] - p[1][d] = (p[2][d] - p[1][d]) + (p[4][d] - p[1][d]) + (p[5][d] - p[1][d])
          THEN {} ELSE {px \o " vertex order of the elements"})

\* ids reported for the neighbours' side of faces: r.ad = sequence of <<element, face, face id, vertex id>> (0-based)
Translate(p, d) == [p EXCEPT ![d] = 0]
ConstDim(r, P) == IF \E d \in 1..r.D : \A p, q \in P : p[d] = q[d] THEN CHOOSE d \in 1..r.D : \A p, q \in P : p[d] = q[d] ELSE 0
AdjIds(r, px) ==
  LET pos(v) == r.crd[v + 1]
      bad(a) ==
        LET e == a[1] + 1  f == a[2] + 1  n == r.elFaEl[e][f] + 1
            mine == FaceSeq(r.ty, r.elVe[e], f)
            per == r.per # 0 /\ r.sp[r.elFa[e][f] + 1] = r.per
            cd == IF per THEN ConstDim(r, { pos(v) : v \in SetOf(mine) }) ELSE 0
            key(v) == IF cd = 0 THEN pos(v) ELSE Translate(pos(v), cd)
        IN IF a[3] \notin 0..(NFaces(r.ty) - 1) THEN TRUE ELSE
        LET theirs == FaceSeq(r.ty, r.elVe[n], a[3] + 1)
        IN \/ { key(v) : v \in SetOf(mine) } # { key(v) : v \in SetOf(theirs) }
           \/ r.ty = "tet" /\ (a[4] \notin 0..2 \/ key(theirs[a[4] + 1]) # key(mine[1]))
  IN IF \E i \in 1..Len(r.ad) : bad(r.ad[i]) THEN {px \o " face/vertex ids of the neighbours' side"} ELSE {}

\* periodic boundaries --------------------------------------------------------
Periodic(r) ==
  LET nF == NFa(r)  nE == NEl(r)  nLF == NFaces(r.ty)
      pf == { f \in 1..nF : r.sp[f] = r.per }
      P == [f \in 1..nF |-> { r.crd[v + 1] : v \in SetOf(r.faVe[f]) }]
      box == [d \in 1..r.D |-> <<MinS({ p[d] : p \in SetOf(r.crd) }), MaxS({ p[d] : p \in SetOf(r.crd) })>>]
      \* the opposite face: same face shifted by the extent of the box
      cd == [f \in pf |-> ConstDim(r, P[f])]
      opp == [f \in pf |-> { g \in pf : g # f /\ cd[g] = cd[f]
                                 /\ { Translate(p, cd[f]) : p \in P[f] } = { Translate(p, cd[f]) : p \in P[g] }
                                 /\ { p[cd[f]] : p \in P[f] } # { p[cd[f]] : p \in P[g] } }]
      owner == [f \in pf |-> CHOOSE e \in 1..nE : \E l \in 1..nLF : r.elFa[e][l] = f - 1]
      local == [f \in pf |-> CHOOSE l \in 1..nLF : r.elFa[owner[f]][l] = f - 1]
  IN
  IF \E f \in pf : Cardinality(opp[f]) # 1 THEN {"C09 generator: no unique opposite face"} ELSE
  LET partner == [f \in pf |-> CHOOSE g \in opp[f] : TRUE] IN
    (IF \A f \in pf : r.faEl[f] = <<owner[f] - 1, owner[partner[f]] - 1>> THEN {} ELSE {"C09 both copies list the two elements, the owner first"})
    \cup (IF \A f \in pf : r.elFaEl[owner[f]][local[f]] = owner[partner[f]] - 1 THEN {} ELSE {"C09 element to element across the periodic boundary"})
    \cup (IF \A f \in pf : LET d == cd[f]  lower == \E p \in P[f] : p[d] = box[d][1] IN
              /\ r.nrm[f][d] = (IF lower THEN -1024 ELSE 1024)
              /\ \A o \in (1..3) \ {d} : r.nrm[f][o] = 0
          THEN {} ELSE {"C09 normals point out of the owner"})

\* geometry -------------------------------------------------------------------
\* all lengths below: |value - exact| <= rounding of the record
Geometry(r) ==
  LET nE == NEl(r)  nF == NFa(r)
      E == [e \in 1..nE |-> [i \in 1..Len(r.elVe[e]) |-> r.crd[r.elVe[e][i] + 1]]]
      F == [f \in 1..nF |-> [i \in 1..Len(r.faVe[f]) |-> r.crd[r.faVe[f][i] + 1]]]
      ext(e, d) == Extent(SetOf(E[e]), d)
      \* 2 * area or 6 * volume
      vol(e) == LET p == E[e] IN
        CASE r.ty = "tria" -> AbsI(Cross(Sub(p[2], p[1]), Sub(p[3], p[1]))[3])
          [] r.ty = "quad" -> 2 * ext(e, 1) * ext(e, 2)
          [] r.ty = "tet"  -> AbsI(Det3(Sub(p[2], p[1]), Sub(p[3], p[1]), Sub(p[4], p[1])))
          [] r.ty = "hex"  -> 6 * ext(e, 1) * ext(e, 2) * ext(e, 3)
      \* squared length or (2 * area)^2
      fcross(f) == Cross(Sub(F[f][2], F[f][1]), Sub(F[f][3], F[f][1]))
      area2(f) == IF r.D = 2 THEN LET d == Sub(F[f][2], F[f][1]) IN Dot(d, d)
                  ELSE (IF r.ty = "hex" THEN 4 ELSE 1) * Dot(fcross(f), fcross(f))
      near(q, n2) == \* q is n rounded, q = 256 * sqrt(n2)
        LET s == ISqrt(n2) IN IF n2 <= 32000 THEN (q + 1) * (q + 1) >= n2 * 65536 /\ (q = 0 \/ (q - 1) * (q - 1) <= n2 * 65536)
                              ELSE q >= 256 * s - 1 /\ q <= 256 * (s + 1) + 1
      \* 256 * (perimeter or 2 * surface)
      faLen(e, l) == LET p == FaceSeq(r.ty, E[e], l)
                         n2 == IF r.D = 2 THEN LET d == Sub(p[2], p[1]) IN Dot(d, d) ELSE LET c == Cross(Sub(p[2], p[1]), Sub(p[3], p[1])) IN Dot(c, c)
                     IN IF n2 <= 32000 THEN ISqrt(n2 * 65536) ELSE 256 * ISqrt(n2)
      surf == [e \in 1..nE |-> LET s[l \in 0..NFaces(r.ty)] == IF l = 0 THEN 0 ELSE s[l - 1] + faLen(e, l) IN s[NFaces(r.ty)]]
      \* in-diameter (times 256) = 4 A / P  or  12 V / (2 S)
      diaOk(e) ==
        CASE r.ty \in {"quad", "hex"} -> r.dia[e] = 256 * MinS({ ext(e, d) : d \in 1..r.D })
          [] OTHER -> AbsI(r.dia[e] * surf[e] - 131072 * vol(e)) <= 2 * surf[e] + 8 * r.dia[e]
      cenOk(e) == \A d \in 1..3 : LET n == Len(E[e]) s[i \in 0..n] == IF i = 0 THEN 0 ELSE s[i - 1] + E[e][i][d] IN r.cen[e][d] = 16 * s[n]
      n1(v) == AbsI(v[1]) + AbsI(v[2]) + AbsI(v[3])
      unit(v) == AbsI(Dot(v, v) - 1048576) <= 2100
      perp(v, w) == AbsI(Dot(v, w)) <= n1(w)
      mid(e) == [d \in 1..3 |-> LET n == Len(E[e]) s[i \in 0..n] == IF i = 0 THEN 0 ELSE s[i - 1] + E[e][i][d] IN s[n]]
      \* sign of the position of element e relative to the face's plane in the direction of the normal
      side(f, e) == LET n == Len(E[e]) IN Dot(r.nrm[f], [d \in 1..3 |-> mid(e)[d] - n * F[f][1][d]])
      isPer(f) == r.per # 0 /\ r.sp[f] = r.per
      t0(f) == SubSeq(r.tan[f], 1, 3)
      t1(f) == SubSeq(r.tan[f], 4, 6)
      nrmOk(f) == /\ unit(r.nrm[f])
                  /\ \A i \in 2..Len(F[f]) : perp(r.nrm[f], Sub(F[f][i], F[f][1]))
                  /\ side(f, r.faEl[f][1] + 1) < 0
                  /\ (isPer(f) \/ r.faEl[f][2] = -1 \/ side(f, r.faEl[f][2] + 1) > 0)
      tanOk(f) == IF r.D = 2 THEN /\ t0(f) = <<-r.nrm[f][2], r.nrm[f][1], 0>> /\ t1(f) = <<0, 0, 0>>
                  ELSE /\ unit(t0(f)) /\ unit(t1(f)) /\ AbsI(Dot(t0(f), t1(f))) <= 3200
                       /\ \A d \in 1..3 : AbsI(Cross(t0(f), t1(f))[d] - 1024 * r.nrm[f][d]) <= 3200
      \* sum of area * outward normal over the faces of an element
      closed(e) == \A d \in 1..3 :
        LET L == NFaces(r.ty)
            s[l \in 0..L] == IF l = 0 THEN 0 ELSE LET f == r.elFa[e][l] + 1 sg == IF r.faEl[f][1] = e - 1 THEN 1 ELSE -1 IN s[l - 1] + sg * ((r.area[f] * r.nrm[f][d]) \div 256)
            t[l \in 0..L] == IF l = 0 THEN 0 ELSE t[l - 1] + r.area[r.elFa[e][l] + 1]
        IN AbsI(s[L]) <= t[L] \div 256 + 4 * L + 4
  IN
    (IF \A e \in 1..nE : r.vol[e] = 16 * vol(e) /\ r.vol[e] > 0 THEN {} ELSE {"C10 volumes"})
    \cup (IF \A f \in 1..nF : near(r.area[f], area2(f)) /\ r.area[f] > 0 THEN {} ELSE {"C10 face areas"})
    \cup (IF \A e \in 1..nE : cenOk(e) THEN {} ELSE {"C10 centroids"})
    \cup (IF \A e \in 1..nE : diaOk(e) THEN {} ELSE {"C10 in-diameters"})
    \cup (IF \A f \in 1..nF : nrmOk(f) THEN {} ELSE {"C10 normals"})
    \cup (IF \A f \in 1..nF : tanOk(f) THEN {} ELSE {"C10 tangents"})
    \cup (IF \A e \in 1..nE : closed(e) THEN {} ELSE {"C10 area-weighted normals close the element"})

\* partitioning ---------------------------------------------------------------
LexLe(a, b) == \/ a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])))
Part(r) ==
  LET nE == NEl(r)
      els == 1..nE
      send == [e \in els |-> IF \E f \in 1..NFaces(r.ty) : r.elFaEl[e][f] # -1 /\ r.pa[r.elFaEl[e][f] + 1] # r.pa[e] THEN 1 ELSE 0]
      key == [e \in els |-> <<r.pa[e], send[e], r.tg[e]>>]
      cell(m, e) == SetOf(m[e])
      \* old id of the element at position e after the reordering
      old == [e \in els |-> IF \E o \in els : cell(r.a_elVe, e) = cell(r.elVe, o) THEN CHOOSE o \in els : cell(r.a_elVe, e) = cell(r.elVe, o) ELSE 0]
  IN
    (IF r.nPas = r.nP /\ \A e \in els : r.pa[e] \in 0..(r.nP - 1) THEN {} ELSE {"C07 partition ids"})
    \cup (IF Len(r.nPaEls) = r.nP /\ \A p \in 0..(r.nP - 1) : r.nPaEls[p + 1] = Cardinality({ e \in els : r.pa[e] = p }) THEN {} ELSE {"C07 partition sizes"})
    \cup (IF \A e, o \in els : (r.pr[e] <= r.pr[o]) = LexLe(key[e], key[o]) THEN {} ELSE {"C07 priorities: partition, inner before send, time group"})
    \cup (IF Len(r.a_elVe) # nE \/ \E e \in els : old[e] = 0 THEN {"C07 the reordering is a permutation of the elements"}
          ELSE IF \A e \in 1..(nE - 1) : LexLe(key[old[e]], key[old[e + 1]]) THEN {} ELSE {"C07 elements are ordered by priority"})
    \cup (IF r.a_crd = r.crd /\ r.a_crdEx /\ r.a_faVe = r.faVe /\ r.a_sp = r.sp THEN {} ELSE {"C07 the reordering keeps vertices, faces and boundary conditions"})
    \cup Topology(r, "C07", r.a_crd, r.a_crdEx, r.a_elVe, r.a_faVe, r.a_faEl, r.a_elFa, r.a_elFaEl, r.a_sp)

Bad(r) ==
  LET topo == Topology(r, IF r.k = "per" THEN "C09" ELSE "C08", r.crd, r.crdEx, r.elVe, r.faVe, r.faEl, r.elFa, r.elFaEl, r.sp) IN
  IF topo # {} THEN topo
  ELSE CASE r.k = "mesh" -> AdjIds(r, "C08") \cup Geometry(r)
         [] r.k = "per"  -> LET p == Periodic(r) IN IF p # {} THEN p ELSE AdjIds(r, "C09") \cup Geometry(r)
         [] r.k = "part" -> Part(r)
RecNext == RecStepSet(Bad)
RecSpec == RecInit /\ [][RecNext]_recno
=============================================================================
