--------------------------- MODULE TimeGroupsRec ----------------------------
(* Results of the real grouping / CFL code against TimeGroups.              *)
EXTENDS RecCheck

Els(r) == 0..(Len(r.ts) - 1)
At(s, i) == s[i + 1]
NbrsOf(r, e) == { At(r.adj, e * r.nF + f) : f \in 0..(r.nF - 1) } \ {-1}

\* exact interval bounds in units of 1/1024: fun/8 * prod rate/4
RECURSIVE Bound(_, _)
Bound(r, i) == IF i = 0 THEN r.fun * 128 ELSE (Bound(r, i - 1) * r.rates[i]) \div 4

\* initial (CFL) group: the group whose interval contains the time step
CflGroup(r, e) == CHOOSE k \in 0..(Len(r.rates)) :
    /\ (k = 0 \/ Bound(r, k) <= At(r.ts, e))
    /\ (k = Len(r.rates) \/ At(r.ts, e) < Bound(r, k + 1))

GroupsOk(r) ==
  LET cg == [e \in Els(r) |-> CflGroup(r, e)]
      tg == [e \in Els(r) |-> At(r.tg, e)]
      n == Len(r.ts)
      Count(k, first, m) == Cardinality({ e \in first..(first + m - 1) : tg[e] = k })
      sumInv == SumSeq([i \in 1..n |-> 1024000000 \div Bound(r, Max2(0, Min2(Len(r.rates), r.tg[i])))])
  IN
  /\ Clause("number of groups", r.nG = Len(r.rates) + 1)
  /\ Clause("intervals", /\ r.ivExact /\ r.ivLastInf /\ Len(r.iv) = r.nG
                         /\ \A i \in 1..r.nG : r.iv[i] = Bound(r, i - 1))
  /\ Clause("group in range", \A e \in Els(r) : tg[e] \in 0..(r.nG - 1))
  /\ Clause("CFL respected", \A e \in Els(r) : tg[e] <= cg[e])
  /\ Clause("single jumps", \A e \in Els(r) : \A f \in NbrsOf(r, e) : tg[e] <= tg[f] + 1)
  /\ Clause("not slower than needed", \A e \in Els(r) : tg[e] = cg[e] \/ \E f \in NbrsOf(r, e) : tg[e] = tg[f] + 1)
  /\ Clause("element counts", \A k \in 0..(r.nG - 1) : r.cnt[k + 1] = Count(k, 0, n))
  /\ Clause("range counts", \A i \in 1..Len(r.ranges) : \A k \in 0..(r.nG - 1) :
                              r.ranges[i][k + 3] = Count(k, r.ranges[i][1], r.ranges[i][2]))
  /\ Clause("speed-up", Abs(r.speedup * (sumInv \div 1000) - n * 1000000) <= n * 6000)

CflOk(r) ==
  LET n == Len(r.dia)
      Speed(e) == IF r.velEl THEN r.c[e] ELSE SumSeq([v \in 1..r.nV |-> r.c[r.elVe[(e - 1) * r.nV + v] + 1]])
      sp == [e \in 1..n |-> Speed(e)]
      mn == CHOOSE m \in 1..n : \A e \in 1..n : r.dia[m] * sp[e] <= r.dia[e] * sp[m]
  IN
  /\ Clause("time step is diameter over mean speed, relative to the smallest",
       \A e \in 1..n : Abs(r.ts[e] * r.dia[mn] * sp[e] - 1000 * r.dia[e] * sp[mn]) <= r.dia[mn] * sp[e])
  /\ Clause("smallest is one", \E e \in 1..n : r.ts[e] = 1000)

Ok(r) == IF r.k = "groups" THEN GroupsOk(r) ELSE CflOk(r)
RecNext == RecStep(Ok)
RecSpec == RecInit /\ [][RecNext]_recno
=============================================================================
