------------------------------ MODULE PointsRec ------------------------------
(* Recorded runs of the real point sources against Points.                     *)
EXTENDS RecCheck
P == INSTANCE Points
K == 4
C(name, cond) == IF cond THEN {} ELSE {name}
Els(r) == DOMAIN r.el
Ves(r, e) == [ i \in DOMAIN r.el[e] |-> r.ve[r.el[e][i]] ]
\* closest point of the (box shaped) domain
Clamp(r, p) == [ i \in DOMAIN p |-> Max2(r.lo[i], Min2(r.hi[i], p[i])) ]
Cands(r, p) == { e \in Els(r) : P!Inside(r.ty, K, P!Ref(r.ty, K, Ves(r, e), Clamp(r, p))) }
\* all assignments of sources to elements they are in
RECURSIVE Assigns(_)
Assigns(cs) == IF cs = << >> THEN { << >> } ELSE { <<e>> \o a : e \in cs[1], a \in Assigns(Tail(cs)) }
\* elements of a call
Covered(r, c) == LET sp == SelectSeq(r.rk[c[1]], LAMBDA e : r.flag[e] = 1) IN { sp[i] : i \in (c[2] + 1)..Min2(Len(sp), c[2] + c[3]) }
RECURSIVE SumW(_, _, _, _)
SumW(r, s, cov, i) == IF i = 0 THEN <<0, 0>> ELSE
  LET rest == SumW(r, s, cov, i - 1)
      x == IF cov[i] THEN P!Integral(s, r.calls[i][4], r.calls[i][5]) * (8 \div s.d) ELSE 0
  IN <<rest[1] + x, rest[2] + Abs(x)>>
RECURSIVE SumOver(_, _)
SumOver(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumOver(f, n - 1)
\* problems of one element and one run, under an assignment
ElOk(r, cov, as, e, k) ==
  LET ids == SelectSeq([ i \in DOMAIN as |-> i ], LAMBDA i : as[i] = e /\ r.src[i].run = k)
      covE == [ c \in DOMAIN r.calls |-> e \in cov[c] ]
      w == [ i \in DOMAIN ids |-> SumW(r, r.src[ids[i]], covE, Len(covE)) ]
      ref == [ i \in DOMAIN ids |-> P!Ref(r.ty, K, Ves(r, e), Clamp(r, r.src[ids[i]].p)) ]
      bas == [ i \in DOMAIN ids |-> [ m \in DOMAIN r.mass |-> r.mass[m] * P!Basis(r.ty, K, m - 1, ref[i]) ] ]
  IN \A q \in DOMAIN r.res[k][e] : \A m \in DOMAIN r.mass :
       LET x == SumOver([ i \in DOMAIN ids |-> w[i][1] * r.src[ids[i]].sca[q] * bas[i][m] ], Len(ids))
           a == SumOver([ i \in DOMAIN ids |-> w[i][2] * Abs(r.src[ids[i]].sca[q]) * Abs(bas[i][m]) ], Len(ids))
       IN Abs(r.res[k][e][q][m] - x) <= IF r.tol = 0 THEN 2 ELSE 2 + a \div r.tol
Flags(r, as) == \A e \in Els(r) : (r.flag[e] = 1) <=> \E i \in DOMAIN as : as[i] = e
Bad(r) ==
  LET cov == [ i \in DOMAIN r.calls |-> Covered(r, r.calls[i]) ]
      all == Assigns([ i \in DOMAIN r.src |-> Cands(r, r.src[i].p) ])
      fit == { a \in all : Flags(r, a) }
  IN C("sources defined", r.ret = r.def)
     \cup IF r.def = 0 THEN C("undefined sources act", r.nz = 0) ELSE
          C("elements with sources", fit # {})
          \cup (IF fit = {} THEN {} ELSE
                C("moment of the sources", \E a \in fit : \A e \in Els(r) : \A k \in DOMAIN r.res : ElOk(r, cov, a, e, k)))
RecNext == RecStepSet(Bad)
RecSpec == RecInit /\ [][RecNext]_recno
=============================================================================
