------------------------------ MODULE MemoryRec ------------------------------
(* Recorded storage of the real memory layer against Memory.                  *)
EXTENDS RecCheck
M == INSTANCE Memory
C(name, cond) == IF cond THEN {} ELSE {name}
Pool(r) ==
  C("pool: blocks overlap", M!Disjoint(r.blocks))
  \cup C("pool: block missing", \A i \in DOMAIN r.size : (r.size[i] > 0) = (r["null"][i] = 0))
  \cup C("pool: alignment", \A i \in DOMAIN r.mod : r.mod[i] = 0)
  \cup C("pool: contents", r.kept = 1)
  \cup C("pool: released before its end", r.early = 0 /\ \A i \in DOMAIN r.size : r.freedBefore[i] = IF r.dead[i] = 1 /\ r["null"][i] = 0 THEN 1 ELSE 0)
  \cup C("pool: not released once", \A i \in DOMAIN r.size : r.freed[i] = IF r["null"][i] = 0 THEN 1 ELSE 0)
FlexR(r) ==
  LET F == M!Flex(r.nEn, r.b, r.masks, r.sz, r.types) IN
  C("flex: pointers", \/ r.ptrs = F
                      \/ \* empty storage has no address
                         F[Len(F)] = 0 /\ Len(r.ptrs) = Len(F) /\ \A i \in DOMAIN F : r.ptrs[i] \in {0, -1})
  \cup C("flex: storage too small", r.cap >= F[Len(F)])
  \cup C("flex: alignment", r.mod = 0) \cup C("flex: contents", r.kept = 1)
Layout(r) ==
  LET nT == Len(r["in"])
      se == LET RECURSIVE A(_) A(t) == IF t = 0 THEN <<>> ELSE A(t - 1) \o [ k \in 1..Len(r.se[t]) |-> <<M!SeFirst(r["in"], r.se, t, k), r.se[t][k]>> ] IN A(nT)
  IN C("layout: inner", r.inO = [ t \in 1..nT |-> <<M!InFirst(r["in"], t), r["in"][t]>> ])
     \cup C("layout: send", r.seO = se)
     \cup C("layout: own", r.own = [ t \in 1..nT |-> r["in"][t] + M!Total(r.se[t]) ])
     \cup C("layout: size", r.n = M!Total(r["in"]) + M!Total([ t \in 1..nT |-> M!Total(r.se[t]) ]))
AdjR(r) ==
  LET o == M!AdjOrder(r.ad, r.sp, r.lay)
      exp == [ e \in 1..Len(r.ad) |-> [ f \in 1..Len(r.ad[e]) |-> IF \E i \in DOMAIN o : o[i] = <<e - 1, f - 1>> THEN (CHOOSE i \in DOMAIN o : o[i] = <<e - 1, f - 1>>) - 1 ELSE -1 ] ]
  IN C("adj: pointers", r.ptr = exp)
     \cup C("adj: send regions", Len(r.send) = Len(r.lay) /\ \A t \in DOMAIN r.lay : r.send[t] = M!SendBounds(r.ad, r.sp, r.lay, t))
     \cup C("adj: receive regions", Len(r.recv) = Len(r.lay) /\ \A t \in DOMAIN r.lay : r.recv[t] = M!RecvBounds(r.ad, r.sp, r.lay, t))
Buf(r) ==
  LET nC == Len(r.chs)  sS == M!MsgSize(r.chs, r.by, M!SendPer)  sR == M!MsgSize(r.chs, r.by, M!RecvPer)
      tS == M!Total(sS)  tR == M!Total(sR)
      fS(e, f) == IF \E i \in DOMAIN r.co : r.co[i][1] = e /\ r.co[i][2] = f THEN CHOOSE i \in DOMAIN r.co : r.co[i][1] = e /\ r.co[i][2] = f ELSE 0
      fR(e, f) == IF \E i \in DOMAIN r.co : r.co[i][3] = e /\ r.co[i][4] = f THEN CHOOSE i \in DOMAIN r.co : r.co[i][3] = e /\ r.co[i][4] = f ELSE 0
      N == r.nE * r.nF
      EofK(k) == (k - 1) \div r.nF  FofK(k) == (k - 1) % r.nF
  IN C("buf: sizes", r.nChs = nC /\ r.sSize = tS /\ r.rSize = tR /\ r.cap = 1)
     \cup C("buf: send messages", r.ms = [ c \in 1..nC |-> <<r.chs[c][1], r.chs[c][2], r.chs[c][3], r.chs[c][1] * r.nT + r.chs[c][3], sS[c], M!Total(SubSeq(sS, 1, c - 1))>> ])
     \cup C("buf: receive messages", r.mr = [ c \in 1..nC |-> <<r.chs[c][1], r.chs[c][2], r.chs[c][3], r.chs[c][3] * r.nT + r.chs[c][1], sR[c], M!Total(SubSeq(sR, 1, c - 1))>> ])
     \cup C("buf: send pointers", \A b \in DOMAIN r.sp : \A k \in 1..N : LET i == fS(EofK(k), FofK(k)) IN
               r.sp[b][k] = IF i = 0 THEN -1 ELSE M!FaceOff(r.chs, r.by, M!SendPer, i) + (b - 1) * tS)
     \cup C("buf: receive pointers", \A b \in DOMAIN r.rp : \A k \in 1..N : LET i == fR(EofK(k), FofK(k)) IN
               r.rp[b][k] = IF i = 0 THEN -1 ELSE M!FaceOff(r.chs, r.by, M!RecvPer, i) + (IF r.nB = 1 THEN 0 ELSE M!RecvCopy(r.chs[M!ChOf(r.chs, i)], b - 1)) * tR)
     \cup C("buf: copies", \A n \in 0..9 : r.cs[n + 1] = <<M!SendCopy(n), M!RemoteCopyLt(n), M!RemoteCopyGe(n)>> /\ r.cr[n + 1] = <<(n \div 2) % 2, n % 2>>)
     \cup C("buf: matching messages", \A t \in 0..(r.nT - 1), lt \in 0..1 : \A c \in 1..nC :
               r.mt[2 * t + lt + 1][c] = IF r.chs[c][1] = t /\ (r.chs[c][1] >= r.chs[c][3] \/ lt = 1) THEN 3 ELSE 0)
Bad(r) == CASE r.k = "pool" -> Pool(r) [] r.k = "flex" -> FlexR(r) [] r.k = "layout" -> Layout(r) [] r.k = "adj" -> AdjR(r) [] r.k = "buf" -> Buf(r)
RecNext == RecStepSet(Bad)
RecSpec == RecInit /\ [][RecNext]_recno
=============================================================================
