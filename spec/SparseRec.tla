------------------------------ MODULE SparseRec -----------------------------
(* Recorded results of the real SparseEntities/EntityLayout functions.       *)
EXTENDS RecCheck, Sparse
Rel(r) ==
  CASE r.k = "nSp" -> r.res = Cardinality(OfType(r.sp, r.t))
    [] r.k = "d2s" -> r.inSp = SpInner(r.sp, r.t, r.inDe) /\ r.seSp = SpSend(r.sp, r.t, r.inDe, r.seDe)
    [] r.k = "sub" -> r.first1 = SubFirst(r.sp, r.t, r.first, r.sizes) /\ r.size1 = SubSize(r.sp, r.t, r.first, r.sizes)
    [] r.k = "inherit" -> r.res = Inherit(r.sp, r.t, r.t1)
    [] r.k \in {"prop", "propDyn"} -> r.res = Propagate(r.sp, r.sp1, r.adj, r.t, r.t1)
    [] r.k = "spDe" -> r.res = SpDe(r.sp, r.t)
    [] r.k = "spSp" -> r.res = SpSp(r.sp, r.t, r.t1)
    [] r.k = "dst" -> r.res = AdjDst(r.sp, r.sp1, r.adj, r.t, r.t1)
    [] r.k = "sst" -> r.res = AdjSst(Len(r.adj), r.sp1, r.adj, r.t1)
    [] r.k = "dyn" -> LET L == AdjDyn(r.sp, r.sp1, r.adj, r.t, r.t1) IN r.res = L /\ r.nPtr = Len(L) /\ r.nRaw = Total([i \in 1..Len(L) |-> Len(L[i])])
    [] r.k = "ibnd" -> /\ r.bfBe = AdjDst(r.sp, r.sp1, r.faEl, r.t, r.t) /\ r.bfLe = AdjDst(r.sp, r.sp1, r.faEl, r.t, r.t1)
                       /\ r.beBf = AdjSst(Len(r.elFa), r.sp, r.elFa, r.t) /\ r.beEl = SpDe(r.sp1, r.t)
    [] r.k = "lay" -> /\ r.first = LayFirst(r.inner, r.send) /\ r.sfirst = LaySend(r.inner, r.send)
                      /\ r.own = [g \in 1..Len(r.inner) |-> r.inner[g] + Total(r.send[g])]
                      /\ r.n = Total(r.inner) + Total([g \in 1..Len(r.send) |-> Total(r.send[g])])
Bad(r) == (IF Rel(r) THEN {} ELSE {r.k}) \cup (IF r.guard = 1 THEN {} ELSE {"writes outside of the arrays"})
RecNext == RecStepSet(Bad)
RecSpec == RecInit /\ [][RecNext]_recno
=============================================================================
