------------------------------ MODULE CommRec -------------------------------
(* The real communication structure against Comm.                            *)
EXTENDS RecCheck, Comm

MaxOf(r) == CHOOSE m \in { r.st[p][1] : p \in 1..r.nP } : \A p \in 1..r.nP : r.st[p][1] <= m
Bad(r) ==
  LET nP == r.nP
      pas == 0..(nP - 1)
      N == Len(r.adj)
      nF == Len(r.adj[1])
      first == [p \in pas |-> LET s[q \in 0..p] == IF q = 0 THEN 0 ELSE s[q - 1] + r.nPaEls[q] IN s[p]]
      sane(p) == LET st == r.st[p + 1] sq == r.seq[p + 1] IN
        /\ Len(st) = 4 * st[1] + 1 /\ st[1] >= 0
        /\ LET s[c \in 0..st[1]] == IF c = 0 THEN 0 ELSE s[c - 1] + st[4 * c + 1] IN s[st[1]] = r.nSeRe[p + 1]
        /\ Len(sq) = r.nSeRe[p + 1]
  IN IF \E p \in pas : ~sane(p) THEN {"sizes of the communication structure"} ELSE
  LET \* channels as reported: <<local group, remote partition, remote group, faces, offset>>
      chs == [p \in pas |-> [c \in 1..r.st[p + 1][1] |->
               LET o == 4 * (c - 1) + 1 s[k \in 0..(c - 1)] == IF k = 0 THEN 0 ELSE s[k - 1] + r.st[p + 1][4 * k + 1]
               IN <<r.st[p + 1][o + 1], r.st[p + 1][o + 2], r.st[p + 1][o + 3], r.st[p + 1][o + 4], s[c - 1]>>]]
      key(p, c) == SubSeq(chs[p][c], 1, 3)
      sendF(p, c, i) == LET q == r.seq[p + 1][chs[p][c][5] + i] IN <<first[p] + q[1], q[2] + 1>>
      recvF(p, c, i) == LET q == r.seq[p + 1][chs[p][c][5] + i] IN <<first[p] + q[3], q[4] + 1>>
      sends(p, c) == { sendF(p, c, i) : i \in 1..chs[p][c][4] }
      recvs(p, c) == { recvF(p, c, i) : i \in 1..chs[p][c][4] }
      local(p, x) == x[1] \in first[p]..(first[p] + r.nPaEls[p + 1] - 1) /\ x[2] \in 1..nF
      idx == { x \in { <<p, c>> : p \in pas, c \in 1..(MaxOf(r)) } : x[2] <= Len(chs[x[1]]) }
  IN
    (IF \A p \in pas : /\ Cardinality({ key(p, c) : c \in 1..Len(chs[p]) }) = Len(chs[p])
                       /\ { key(p, c) : c \in 1..Len(chs[p]) } = Channels(r.adj, r.pa, r.tg, p)
     THEN {} ELSE {"one channel per local group, remote partition and remote group"})
    \cup (IF \A x \in idx : \A i \in 1..chs[x[1]][x[2]][4] : local(x[1], sendF(x[1], x[2], i)) /\ local(x[1], recvF(x[1], x[2], i))
          THEN {} ELSE {"sends and receives are faces of the partition's elements"})
    \cup (IF \A x \in idx : /\ sends(x[1], x[2]) = FacesOf(r.adj, r.pa, r.tg, x[1], key(x[1], x[2]))
                            /\ Cardinality(sends(x[1], x[2])) = chs[x[1]][x[2]][4]
          THEN {} ELSE {"every face at a partition boundary is sent exactly once through its channel"})
    \cup (IF \A x \in idx : recvs(x[1], x[2]) = sends(x[1], x[2]) THEN {} ELSE {"every face at a partition boundary is received exactly once through its channel"})
    \cup (IF \A x \in idx : LET q == chs[x[1]][x[2]][2] m == { c \in 1..Len(chs[q]) : key(q, c) = Mirror(x[1], key(x[1], x[2])) } IN
              Cardinality(m) = 1 /\ LET c == CHOOSE y \in m : TRUE IN
                /\ chs[q][c][4] = chs[x[1]][x[2]][4]
                /\ \A i \in 1..chs[q][c][4] : sendF(q, c, i) \in Twins(r.adj, recvF(x[1], x[2], i))
          THEN {} ELSE {"the faces of matching channels are in the same order"})
    \cup (IF \A p \in pas : \A t \in 0..(r.nTg - 1) :
              LET own == { e \in 0..(N - 1) : r.pa[e + 1] = p /\ r.tg[e + 1] = t } IN
              /\ r.nIn[p + 1][t + 1] = Cardinality({ e \in own : ~Send(r.adj, r.pa, e) })
              /\ r.nSe[p + 1][t + 1] = Cardinality({ e \in own : Send(r.adj, r.pa, e) })
          THEN {} ELSE {"inner and send elements per time group"})
RecNext == RecStepSet(Bad)
RecSpec == RecInit /\ [][RecNext]_recno
=============================================================================
