------------------------------- MODULE Memory -------------------------------
(* Storage handed out by the solver's memory layer:                          *)
(*  - a pool of aligned blocks which live until the pool is destroyed,       *)
(*  - flexible storage: base data of all entities, then the data of every    *)
(*    sparse type for the entities which carry it,                           *)
(*  - face data ordered such that messages are contiguous,                   *)
(*  - message buffers of the communication channels with one or two copies.  *)
(* Entities, faces, blocks and channels are numbered from 0.                 *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

LOCAL Before(f, i) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + f[k] IN S(i - 1)   \* sum of the entries before i
Total(f) == Before(f, Len(f) + 1)

(* ---- pool: blocks [lo, hi) in an order-preserving numbering of addresses *)
Disjoint(blocks) == \A i, j \in DOMAIN blocks : i = j \/ blocks[i][1] = blocks[i][2] \/ blocks[j][1] = blocks[j][2]
                                                 \/ blocks[i][2] <= blocks[j][1] \/ blocks[j][2] <= blocks[i][1]

(* ---- flexible storage: types are bit masks; sz sizes of the sparse types *)
Carries(t, mask) == (t & mask) = mask
\* slots in the order of memory: <<type (0: base), entity, size>>
FlexSizes(nEn, b, masks, sz, types) ==
  [ k \in 1..((Len(masks) + 1) * nEn) |-> LET st == (k - 1) \div nEn  e == ((k - 1) % nEn) + 1 IN
      IF st = 0 THEN b ELSE IF Carries(types[e], masks[st]) THEN sz[st] ELSE 0 ]
FlexNull(nEn, masks, types, k) == LET st == (k - 1) \div nEn  e == ((k - 1) % nEn) + 1 IN st > 0 /\ ~ Carries(types[e], masks[st])
\* offsets of the slots; -1: no storage; the last entry is the end of the storage
RECURSIVE Acc(_, _)
Acc(s, k) == IF k = 0 THEN <<0>> ELSE LET p == Acc(s, k - 1) IN Append(p, p[k] + s[k])
Flex(nEn, b, masks, sz, types) ==
  LET s == FlexSizes(nEn, b, masks, sz, types)  a == Acc(s, Len(s)) IN
    [ k \in 1..(Len(s) + 1) |-> IF k <= Len(s) /\ FlexNull(nEn, masks, types, k) THEN -1 ELSE a[k] ]

(* ---- layout of entities: inner entities of all groups, then the send entities of all groups *)
InFirst(nIn, t) == Before(nIn, t)
SeFirst(nIn, nSe, t, r) == Total(nIn) + Before([ u \in 1..Len(nSe) |-> Total(nSe[u]) ], t) + Before(nSe[t], r)

(* ---- face data: lay is a sequence of groups [in, own, se, re] with regions <<first, size>> *)
LOCAL Ents(reg) == [ i \in 1..reg[2] |-> reg[1] + i - 1 ]
LOCAL InReg(e, reg) == e >= reg[1] /\ e < reg[1] + reg[2]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
\* relevant faces of the entities of a region which satisfy P, in the order of entities and faces
Faces(ad, sp, reg, P(_)) ==
  LET nF == IF Len(ad) = 0 THEN 0 ELSE Len(ad[1])
      all == [ i \in 1..(reg[2] * nF) |-> <<reg[1] + (i - 1) \div nF, (i - 1) % nF>> ]
      rel(x) == LET a == ad[x[1] + 1][x[2] + 1] IN a >= 0 /\ (sp = <<>> \/ sp[x[1] + 1] >= 0 \/ sp[a + 1] >= 0) /\ P(a)
  IN SelectSeq(all, rel)
\* the parts of a group's data, in the order of memory
GroupParts(ad, sp, g) ==
  LET n == Len(g.se) IN
    << Faces(ad, sp, g["in"], LAMBDA a : TRUE) >>
    \o << Cat([ r \in 1..n |-> Faces(ad, sp, g.se[r], LAMBDA a : ~ InReg(a, g.re[r])) ]) >>
    \o [ r \in 1..n |-> Faces(ad, sp, g.se[r], LAMBDA a : InReg(a, g.re[r])) ]
    \o [ r \in 1..n |-> Faces(ad, sp, g.re[r], LAMBDA a : a < g["in"][1] + g.own) ]
AdjParts(ad, sp, lay) == Cat([ t \in 1..Len(lay) |-> GroupParts(ad, sp, lay[t]) ])
AdjOrder(ad, sp, lay) == Cat(AdjParts(ad, sp, lay))
\* boundaries of the messages of group t: sends and receives (one more than regions)
PartFirst(ad, sp, lay, t, p) ==
  Total([ u \in 1..(t - 1) |-> Len(Cat(GroupParts(ad, sp, lay[u]))) ]) + Len(Cat(SubSeq(GroupParts(ad, sp, lay[t]), 1, p - 1)))
SendBounds(ad, sp, lay, t) == [ r \in 1..(Len(lay[t].se) + 1) |-> PartFirst(ad, sp, lay, t, r + 2) ]
RecvBounds(ad, sp, lay, t) == [ r \in 1..(Len(lay[t].se) + 1) |-> PartFirst(ad, sp, lay, t, r + 2 + Len(lay[t].se)) ]

(* ---- message buffers: channels <<tg, rank, tgAd, n>>, by bytes per face *)
SendPer(ch, by) == IF ch[1] > ch[3] THEN 2 * by ELSE by
RecvPer(ch, by) == IF ch[1] < ch[3] THEN 2 * by ELSE by
MsgSize(chs, by, Per(_, _)) == [ c \in 1..Len(chs) |-> chs[c][4] * Per(chs[c], by) ]
\* channel of the i-th communicating face, and offset of its data in the buffer
ChOf(chs, i) == CHOOSE c \in 1..Len(chs) : Before([ k \in 1..Len(chs) |-> chs[k][4] ], c) < i /\ i <= Before([ k \in 1..Len(chs) |-> chs[k][4] ], c + 1)
FaceOff(chs, by, Per(_, _), i) == LET c == ChOf(chs, i) IN
  Before(MsgSize(chs, by, Per), c) + (i - 1 - Before([ k \in 1..Len(chs) |-> chs[k][4] ], c)) * Per(chs[c], by)
\* copy of the receive buffer in which a face finds the data of the update u of its group (two copies):
\* the data of a neighbor with a larger time step serve two updates
RecvCopy(ch, u) == IF ch[1] < ch[3] THEN (u \div 2) % 2 ELSE u % 2
SendCopy(u) == u % 2
\* copy at the receiver for the n-th send of a group; to a group with a larger time step every second send is a message
RemoteCopyLt(n) == IF n % 2 = 1 THEN (n \div 2) % 2 ELSE -1
RemoteCopyGe(n) == n % 2
=============================================================================
