-------------------------------- MODULE SweRec --------------------------------
(* Recorded steps of the real shallow water solver against Swe.               *)
EXTENDS RecCheck
S == INSTANCE Swe
C(name, cond) == IF cond THEN {} ELSE {name}
Near(a, b, t) == Abs(a - b) <= t
Side(r, c, f) == [h |-> r["in"][c + 1][1], b |-> r["in"][c + 1][2], q |-> r["in"][c + 1][3] * f[4] + r["in"][c + 1][4] * f[5]]
LeftOf(r, f) == Side(r, f[1], f)
RightOf(r, f) == IF f[2] < 0 THEN LeftOf(r, f) ELSE Side(r, f[2], f)
Seen(r, f) == S!Seen(f[3], LeftOf(r, f), RightOf(r, f))
\* speeds of the two waves (units 1/1000): extrema of the characteristic and the Roe speeds;
\* only for faces whose heights are squares
Root(h) == CASE h = 1 -> 1 [] h = 4 -> 2 [] h = 9 -> 3 [] h = 16 -> 4 [] h = 25 -> 5 [] OTHER -> 0
Vel(s) == S!Div(200 * s.q, s.h)
G(h2) == (1225831 * h2)                    \* g h 10^6 for h2 in units of 1/8
Sq(x) == x * x
\* lam is below u - sqrt(c2) (resp. above u + sqrt(c2)) up to rounding
Below(lam, u, c2) == LET x == u - lam IN (x >= 0) /\ Sq(x + 4) >= c2
Tight(lam, u, c2) == LET x == u - lam IN (x >= 0) /\ Near(Sq(x), c2, 8 * x + 16)
Speeds(r, f, lam) ==
  LET s == Seen(r, f)  l == s[1]  o == s[2]  kl == Root(l.h)  ko == Root(o.h)
      ul == Vel(l)  uo == Vel(o)  ur == S!Div(kl * ul + ko * uo, kl + ko)  cr == G(l.h + o.h)
  IN (kl # 0 /\ ko # 0 /\ lam[1] # 0 /\ lam[2] # 0 /\ Abs(lam[1]) <= 25000 /\ Abs(lam[2]) <= 25000) =>
     /\ Below(lam[1], ul, G(2 * l.h)) /\ Below(lam[1], ur, cr) /\ (Tight(lam[1], ul, G(2 * l.h)) \/ Tight(lam[1], ur, cr))
     /\ Below(-lam[2], -uo, G(2 * o.h)) /\ Below(-lam[2], -ur, cr) /\ (Tight(-lam[2], -uo, G(2 * o.h)) \/ Tight(-lam[2], -ur, cr))
\* no wave travels against a flow which is faster than all waves
Faster(u, c2) == u > 0 /\ u < 25000 /\ Sq(u - 4) > c2
Upwind(r, f, n) ==
  LET s == Seen(r, f)  l == s[1]  o == s[2]  kl == Root(l.h)  ko == Root(o.h)
      ul == Vel(l)  uo == Vel(o)  ur == S!Div(kl * ul + ko * uo, kl + ko)  cr == G(l.h + o.h)
  IN kl # 0 /\ ko # 0 => /\ (Faster(ul, G(2 * l.h)) /\ Faster(ur, cr) => n[1] = 0 /\ n[2] = 0)
                         /\ (Faster(-uo, G(2 * o.h)) /\ Faster(-ur, cr) => n[3] = 0 /\ n[4] = 0)
FaceBad(r, i) ==
  LET f == r.fa[i]  n == r.nu[i]  l == LeftOf(r, f)  o == RightOf(r, f)  s == Seen(r, f) IN
    IF ~ S!Active(f[3], l, o) THEN C("update of a face without water", n[1] = 0 /\ n[2] = 0 /\ (f[2] < 0 \/ (n[3] = 0 /\ n[4] = 0)))
    ELSE C("update of a dry cell", (S!Wet(l) \/ (n[1] = 0 /\ n[2] = 0)) /\ (f[2] < 0 \/ S!Wet(o) \/ (n[3] = 0 /\ n[4] = 0)))
    \cup C("water through a wall", S!Wall(f[3], l, o) => IF S!Wet(l) THEN Near(n[1], -5000 * l.q, 3) ELSE Near(n[3], 5000 * o.q, 3))
    \cup C("mass between cells", f[3] = 0 /\ S!Wet(l) /\ S!Wet(o) => Near(n[1] + n[3], 5000 * S!JumpQ(s), 4))
    \cup C("momentum between cells", f[3] = 0 /\ S!Wet(l) /\ S!Wet(o) => Near(S!Div(n[2] + n[4], 100), S!JumpM(s), 8))
    \cup C("lake at rest", S!AtRest(s) => \A k \in 1..4 : Abs(n[k]) <= 1)
    \cup C("outflow", f[3] = 1 => Abs(n[1]) <= 1 /\ Abs(n[2]) <= 1)
    \cup C("speeds", f[3] = 0 /\ S!Wet(l) /\ S!Wet(o) => Speeds(r, f, r.lam[i]))
    \cup C("against the flow", f[3] = 0 /\ S!Wet(l) /\ S!Wet(o) => Upwind(r, f, n))
\* change of cell c (from 1) by its faces, in component d with weights W(face)
Flow(r, c, k, W(_)) == LET fs == r.elFa[c] IN
  SumSeq([ j \in 1..Len(fs) |-> LET f == r.fa[fs[j] + 1]  n == r.nu[fs[j] + 1] IN f[6] * W(f) * (IF f[1] = c - 1 THEN n[k] ELSE n[k + 2]) ])
CellBad(r, c) ==
  LET i == r["in"][c]  q == r.q[c]  v == r.vol[c]  K == r.K IN
    IF i[2] >= 0 THEN C("dry cell changed", r.kept[c] = 1)
    ELSE C("height of a cell", Near((q[1] - 25000 * i[1]) * v * K, -Flow(r, c, 1, LAMBDA f : 1), v * K + 40))
    \cup C("momentum of a cell", /\ Near((q[2] - 25000 * i[3]) * v * K, -S!Div(Flow(r, c, 2, LAMBDA f : f[4]), 5), v * K + 60)
                                 /\ (r.nd = 2 => Near((q[3] - 25000 * i[4]) * v * K, -S!Div(Flow(r, c, 2, LAMBDA f : f[5]), 5), v * K + 60)))
Step(r) == UNION { FaceBad(r, i) : i \in DOMAIN r.fa } \cup UNION { CellBad(r, c) : c \in DOMAIN r["in"] }
Run(r) ==
  C("dry cell changed", \A c \in DOMAIN r.q : r.dry[c] = 1 => r.kept[c] = 1)
  \cup C("lake at rest", r.lake = 1 => \A c \in DOMAIN r.q : \A k \in DOMAIN r.q[c] : Near(r.q[c][k], r.q0[c][k], 1))
  \cup C("not finite", \A c \in DOMAIN r.q : \A k \in DOMAIN r.q[c] : Abs(r.q[c][k]) < 100000000)
  \cup C("mass", r.closed = 1 => Near(SumSeq([ c \in DOMAIN r.q |-> r.vol[c] * (IF r.dry[c] = 1 THEN 0 ELSE r.q[c][1] - r.q0[c][1]) ]), 0, SumSeq(r.vol)))
Bad(r) == (IF r.k = "step" THEN Step(r) ELSE Run(r)) \cup C("bathymetry changed", r.bath = 1) \cup C("fused run differs from a single run", r.same = 1)
RecNext == RecStepSet(Bad)
RecSpec == RecInit /\ [][RecNext]_recno
=============================================================================
