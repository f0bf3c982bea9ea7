---------------------------- MODULE FrictionRec -----------------------------
(* Recorded perturbations of the real friction law against Friction.           *)
(* Stress, velocity and slip in 1/1000, coefficients in 1/10000, shear speeds  *)
(* over mu and dc in 1/16, time steps in 1/256.                                *)
EXTENDS RecCheck
F == INSTANCE Friction
C(name, cond) == IF cond THEN {} ELSE {name}
Near(a, b, t) == Abs(a - b) <= t
Dim(r) == DOMAIN r.ss
Trial(r, d) == r.ss[d] + r.ms[d]
\* exact states: quarters and sixteenths
Quarter(r) == [ d \in Dim(r) |-> Trial(r, d) \div 250 ]
StExact(r) == F!Strength(r.mu0 \div 625, r.sn \div 250, 16 * (r.co \div 250))      \* in 1/64
\* otherwise: hundredths
Hund(v) == (v + 5) \div 10
St100(r) == Hund(r.st)
TrialSq(r) == F!SqSum([ d \in Dim(r) |-> Hund(Trial(r, d)) ])
Clear(r) == Abs(TrialSq(r) - St100(r) * St100(r)) > 8 * (St100(r) + 4)
Strength(r) == Near(r.st, F!Strength(r.mu0, r.sn, 10000 * r.co) \div 10000, 10)   \* rounding of mu0
Slides(r) == F!Slides(Quarter(r), StExact(r), 16)
Decision(r) == IF r.ex = 1 THEN (r.per = 1) = Slides(r)
               ELSE Clear(r) => (r.per = 1) = (TrialSq(r) > St100(r) * St100(r))
Diff(r, d) == r.tr[d] - Trial(r, d)
Minus(r, l, o) == IF r.lEqM = 1 THEN l ELSE o
VM(r, d) == Minus(r, r.vl[d], r.vr[d])
VP(r, d) == Minus(r, r.vr[d], r.vl[d])
DcLen(r) == (r.dc * 1000) \div 16
Slip2(r) == F!SqSum([ d \in Dim(r) |-> r.d1[d] ])
\* weakening function of the total slip; the total slip of two components lies between bounds
MuOf(r, dd) == IF r.dc * 1000 <= 16 * dd THEN r.mud ELSE r.mus - ((r.mus - r.mud) * dd) \div DcLen(r)
Steep(r) == 3 + (2 * (r.mus - r.mud)) \div Max2(1, DcLen(r))
Near2(r, m, dd) == m <= MuOf(r, Max2(0, dd - 2)) + 2 /\ m >= MuOf(r, dd + 2) - 2
\* candidate for the total slip in 1/1000 with a square close to the one of the components
RECURSIVE Root(_, _, _)
Root(x, a, b) == IF b - a <= 1 THEN a ELSE LET m == (a + b) \div 2 IN IF m <= 46000 /\ m * m <= x THEN Root(x, m, b) ELSE Root(x, a, m)
Total(r) == IF r.nd = 2 THEN r.d1[1] ELSE
            IF \E d \in Dim(r) : r.d1[d] >= 20100 \/ r.d1[d] >= DcLen(r) + 2 THEN 40000 ELSE Root(Slip2(r), 0, 40000)
Bad(r) ==
  C("strength", Strength(r))
  \cup C("sliding or sticking", Decision(r))
  \cup C("traction exceeds the strength", F!SqSum([ d \in Dim(r) |-> Hund(r.tr[d]) ]) <= (St100(r) + 2) * (St100(r) + 2))
  \cup C("sticking point moves", r.per = 0 => r.still = 1 /\ \A d \in Dim(r) : Near(r.tr[d], Trial(r, d), 1))
  \cup C("sliding point does not carry the strength", r.per = 1 => F!SqSum([ d \in Dim(r) |-> Hund(r.tr[d]) ]) >= Max2(0, St100(r) - 2) * Max2(0, St100(r) - 2))
  \cup C("direction of the traction", r.per = 1 =>
           /\ \A d \in Dim(r) : (Trial(r, d) >= 0 => r.tr[d] >= -1) /\ (Trial(r, d) <= 0 => r.tr[d] <= 1)
           /\ (r.nd = 3 => Near((Trial(r, 1) \div 10) * (r.tr[2] \div 10), (Trial(r, 2) \div 10) * (r.tr[1] \div 10), (4 * (Abs(Trial(r, 1)) + Abs(Trial(r, 2)) + 200)) \div 10)))
  \cup C("tractions of the two sides", r.eq = 1 /\ \A d \in Dim(r) : Near(r.sl[d] + r.ss[d], r.tr[d], 2) /\ Near(r.rr[d] + r.ss[d], r.tr[d], 2))
  \cup C("velocities", \A d \in Dim(r) : /\ Near(16 * (VM(r, d) - r.vm[d]), -r.csM * Diff(r, d), 48 + 2 * r.csM)
                                          /\ Near(16 * (VP(r, d) - r.vm[d]), r.csP * Diff(r, d), 48 + 2 * r.csP))
  \cup C("slip rate", \A d \in Dim(r) : Near(r.sr[d], VP(r, d) - VM(r, d), 3))
  \cup C("slip", r.mono = 1 /\ \A d \in Dim(r) : Near(256 * (r.d1[d] - r.d0[d]), Abs(r.sr[d]) * r.dt, 512 + r.dt))
  \cup C("coefficient of friction", IF Total(r) = 40000 THEN r.mu1 = r.mud ELSE Near2(r, r.mu1, Total(r)))
  \cup C("coefficient out of range", r.mu1 >= r.mud /\ r.mu1 <= r.mus)
  \cup C("something else changed", r.oth = 1)
RecNext == RecStepSet(Bad)
RecSpec == RecInit /\ [][RecNext]_recno
=============================================================================
