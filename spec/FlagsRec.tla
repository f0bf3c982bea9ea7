------------------------------ MODULE FlagsRec ------------------------------
(* What the real solver's mesh interface reports for its partition.          *)
EXTENDS RecCheck, Flags, Bitwise
M == INSTANCE Mesh
Bit == [eq |-> 1, lt |-> 2, gt |-> 4]
OrRels(S) == (IF "eq" \in S THEN 1 ELSE 0) + (IF "lt" \in S THEN 2 ELSE 0) + (IF "gt" \in S THEN 4 ELSE 0)
If(cond, name) == IF cond THEN {name} ELSE {}
\* direct calls: one partition's arrays
Direct(r) ==
  LET nE == Len(r.adj)  nF == IF nE = 0 THEN 0 ELSE Len(r.adj[1])
      want == [e \in 1..nE |-> [f \in 1..nF |-> LocalRel(r.nIn, r.nSe, r.chs, r.se, r.sf, r.adj, e - 1, f - 1)]] IN
       If(\E e \in 1..nE : \E f \in 1..nF : r.fl[e][f] # Bit[want[e][f]], "relation per face")
  \cup If(\E e \in 1..nE : r.el[e] # OrRels({ want[e][f] : f \in 1..nF }), "relations of the element")
  \cup If(r.keep # 1, "other bits of the type changed")
\* the whole way: global mesh -> support files of the partitions -> solver
\* g*: global mesh (elements ordered by partition); first: first element of the partition
Pipe(r) ==
  LET nF == Len(r.gAdj[1])  nT == r.nTg
      nb(e, f) == r.gAdj[e + 1][f + 1]
      want(e, f) == IF nb(e, f) = -1 THEN "eq" ELSE Rel(r.gTg[e + 1], r.gTg[nb(e, f) + 1])
      part(p) ==
        LET q == r.pas[p]  f0 == q.first  ids == 0..(q.n - 1)
            send(e) == \E f \in 0..(nF - 1) : nb(f0 + e, f) # -1 /\ (nb(f0 + e, f) < f0 \/ nb(f0 + e, f) >= f0 + q.n)
            cnt(t, s) == Cardinality({ e \in ids : r.gTg[f0 + e + 1] = t /\ send(e) = s })
            inner == [t \in 1..nT |-> cnt(t - 1, FALSE)]  outer == [t \in 1..nT |-> cnt(t - 1, TRUE)] IN
        IF q.nEls # q.n \/ Len(q.fl) # q.n THEN {"number of elements"} ELSE
             If(\E e \in ids : \E f \in 0..(nF - 1) : q.fl[e + 1][f + 1] # Bit[want(f0 + e, f)], "relation per face (mesh)")
        \cup If(\E e \in ids : q.el[e + 1] # OrRels({ want(f0 + e, f) : f \in 0..(nF - 1) }), "relations of the element (mesh)")
        \cup If(q.nTgs # nT \/ q.nIn # inner \/ q.nSe # outer \/ q.sumIn # Sum(inner) \/ q.sumSe # Sum(outer), "elements per time group")
        \cup If(q.layIn # [t \in 1..nT |-> <<SumTo(inner, t - 1), inner[t]>>]
                \/ q.laySe # [t \in 1..nT |-> <<Sum(inner) + SumTo(outer, t - 1), outer[t]>>] \/ q.layN # q.n
                \/ q.layOwn # [t \in 1..nT |-> inner[t] + outer[t]], "layout of the elements")
        \cup If(q.rel # r.rel, "relative time steps")
        \cup If(q.chs # q.gChs \/ q.co # q.gCo, "communication structure")
        \cup If(\E e \in ids : \E f \in 0..(nF - 1) : LET n == nb(f0 + e, f) a == q.fAd[e + 1][f + 1] IN
                  IF n = -1 THEN a # -1 ELSE a \notin 0..(nF - 1) \/ nb(n, a) # f0 + e, "face ids of the neighbours")
        \cup If(\E e \in ids : \E f \in 0..(nF - 1) : LET n == nb(f0 + e, f) a == q.fAd[e + 1][f + 1] v == q.vAd[e + 1][f + 1] IN
                  IF n = -1 THEN v # -1
                  ELSE r.ty = "tet" /\ a \in 0..3 /\ (v \notin 0..2 \/
                         M!FaceSeq("tet", r.gElVe[n + 1], a + 1)[v + 1] # M!FaceSeq("tet", r.gElVe[f0 + e + 1], f + 1)[1]), "vertex ids of the neighbours")
        \cup If(\E e \in ids : \E f \in 0..(nF - 1) : q.faSp[e + 1][f + 1] # r.gFaSp[f0 + e + 1][f + 1], "types of the faces")
        \cup If(q.keep # 1, "other bits of the types changed")
  IN UNION { part(p) : p \in 1..Len(r.pas) }
Bad(r) == IF r.k = "direct" THEN Direct(r) ELSE Pipe(r)
RecNext == RecStepSet(Bad)
RecSpec == RecInit /\ [][RecNext]_recno
=============================================================================
