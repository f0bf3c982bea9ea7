----------------------------- MODULE MC_Friction -----------------------------
(* Histories of a fault point whose trial tractions lie on a lattice with      *)
(* integral norms (units 1/10 after scaling), so the law is exact up to the    *)
(* floor of the total slip: what the law implies for every history.            *)
EXTENDS Friction, FiniteSets
CONSTANTS MUS, MUD, DC, NORM, COH, CAP
VARIABLES dd, mu, last
vars == << dd, mu, last >>
\* unit vectors in tenths and lengths
Units == { << 10, 0 >>, << -10, 0 >>, << 0, 10 >>, << 6, 8 >>, << -8, 6 >>, << 6, -8 >> }
Lens == 0..4
Isqrt(x) == CHOOSE k \in 0..200 : k * k <= x /\ (k + 1) * (k + 1) > x
Init == dd = << 0, 0 >> /\ mu = MUS /\ last = [u |-> << 10, 0 >>, n |-> 0, st |-> 0, tr |-> << 0, 0 >>, sr |-> << 0, 0 >>]
\* strength in quarters of a trial unit
Step(u, n, sn) ==
  LET st == Strength(mu, sn, -COH)  slide == 4 * n > st
      m == IF slide THEN st ELSE 4 * n
      tr == << u[1] * m, u[2] * m >>
      sr == << u[1] * (m - 4 * n), u[2] * (m - 4 * n) >>
      d2 == << dd[1] + Mag(sr[1]) \div 8, dd[2] + Mag(sr[2]) \div 8 >>
  IN /\ d2[1] <= CAP /\ d2[2] <= CAP
     /\ dd' = d2
     /\ mu' = Weak(MUS, MUD, DC, Isqrt(SqSum(d2)))
     /\ last' = [u |-> u, n |-> n, st |-> st, tr |-> tr, sr |-> sr]
Next == \E u \in Units, n \in Lens, sn \in NORM : Step(u, n, -sn)
Spec == Init /\ [][Next]_vars
Bounded == SqSum(last.tr) <= 100 * last.st * last.st
Sticks == 4 * last.n <= last.st => last.sr = << 0, 0 >> /\ last.tr = << 4 * last.n * last.u[1], 4 * last.n * last.u[2] >>
Carries == 4 * last.n > last.st => SqSum(last.tr) = 100 * last.st * last.st /\ last.tr[1] * last.u[2] = last.tr[2] * last.u[1]
\* the traction opposes the slip (the sides move apart against it): friction dissipates
Dissipates == last.tr[1] * last.sr[1] + last.tr[2] * last.sr[2] <= 0
Clamped == mu >= MUD /\ mu <= MUS
Exact == mu = Weak(MUS, MUD, DC, Isqrt(SqSum(dd)))
Inv == Bounded /\ Sticks /\ Carries /\ Dissipates /\ Clamped /\ Exact
Monotone == [][ dd'[1] >= dd[1] /\ dd'[2] >= dd[2] /\ mu' <= mu ]_vars
\* once the slip has passed dc, the point never recovers
Weakened == [][ mu = MUD => mu' = MUD ]_vars
=============================================================================
