------------------------------ MODULE MC_Sparse -----------------------------
(* Design: one pass over the dense entities with running sparse counters,    *)
(* as the code traverses them, against the definitions of Sparse; for all    *)
(* types and adjacencies of up to N entities.                                *)
EXTENDS Sparse, TLC
CONSTANTS N, BITS
Sps == [1..N -> 0..BITS]
VARIABLES sp, sp1, adj, t0, t1, de, c0, c1, spDe, spSp, dst, sst
vars == <<sp, sp1, adj, t0, t1, de, c0, c1, spDe, spSp, dst, sst>>
Init == /\ sp \in Sps /\ sp1 \in Sps /\ adj \in [1..N -> {<<a, b>> : a \in -1..(N - 1), b \in {-1, N - 1}}]
        /\ t0 \in 0..BITS /\ t1 \in 1..BITS /\ de = 0 /\ c0 = 0 /\ c1 = 0 /\ spDe = <<>> /\ spSp = <<>> /\ dst = <<>> /\ sst = <<>>
\* lookup which a first pass over the neighbours builds
Lookup(e) == IF e = -1 THEN -1 ELSE IF Is(sp1, t1, e) THEN Cardinality(OfType(SubSeq(sp1, 1, e), t1)) ELSE -1
Row(e) == [a \in 1..2 |-> Lookup(adj[e + 1][a])]
Step == /\ de < N /\ de' = de + 1
        /\ LET h0 == Is(sp, t0, de)  h1 == Is(sp, t1, de) IN
           /\ c0' = c0 + (IF h0 THEN 1 ELSE 0) /\ c1' = c1 + (IF h1 THEN 1 ELSE 0)
           /\ spDe' = IF h0 THEN Append(spDe, de) ELSE spDe
           /\ spSp' = IF h0 THEN Append(spSp, IF h1 THEN c1 ELSE -1) ELSE spSp
           /\ dst' = IF h0 THEN Append(dst, Row(de)) ELSE dst
           /\ sst' = IF \E a \in 1..2 : Row(de)[a] # -1 THEN Append(sst, Row(de)) ELSE sst
        /\ UNCHANGED <<sp, sp1, adj, t0, t1>>
Next == Step
Spec == Init /\ [][Next]_vars
Counters == c0 = Len(spDe) /\ c0 = CountIn(sp, t0, 0, de) /\ c1 = CountIn(sp, t1, 0, de)
Final == de = N =>
  /\ spDe = SpDe(sp, t0) /\ spSp = SpSp(sp, t0, t1)
  /\ dst = AdjDst(sp, sp1, adj, t0, t1) /\ sst = AdjSst(N, sp1, adj, t1)
\* links are consistent with each other: sparse ids lead back to the entity, through the dense ids
Back == de = N => \A i \in 1..Len(spDe) : /\ SpId(sp, t0, spDe[i]) = i - 1
                                          /\ spSp[i] # -1 => SpDe(sp, t1)[spSp[i] + 1] = spDe[i]
                                          /\ \A a \in 1..2 : dst[i][a] # -1 => SpDe(sp1, t1)[dst[i][a] + 1] = adj[spDe[i] + 1][a]
=============================================================================
