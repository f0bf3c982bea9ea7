----------------------------- MODULE MC_Points ------------------------------
(* All small sources, and all sequences of time steps over them.               *)
EXTENDS Points, FiniteSets
CONSTANTS VALS, MAXN, DS, ONS, TEND, NR, DIST
VARIABLES s, t0, t, acc
vars == << s, t0, t, acc >>
Sources == { [on |-> o, d |-> d, v |-> v] : o \in ONS, d \in DS, v \in UNION { [1..n -> VALS] : n \in 1..MAXN } }
Init == s \in Sources /\ t0 \in 0..TEND /\ t = t0 /\ acc = 0
Next == \E b \in t..TEND : t' = b /\ acc' = acc + Step(s, t, b) /\ UNCHANGED << s, t0 >>
Spec == Init /\ [][Next]_vars
End == s.on + (Len(s.v) - 1) * s.d
\* whatever the steps were: the moment of the window has been injected, once
Moment == acc = Integral(s, t0, t)
Full == (t0 <= s.on /\ t >= End) => acc = s.d * s.d * Trapez(s.v, Len(s.v) - 1)
\* nothing outside of the source's activity
Quiet == (t <= s.on \/ t0 >= End) => acc = 0
Constant == (\A i \in DOMAIN s.v : s.v[i] = s.v[1]) => acc = 2 * s.d * s.v[1] * (LET lo == IF t0 < s.on THEN s.on ELSE t0 hi == IF t > End THEN End ELSE t IN IF hi > lo THEN hi - lo ELSE 0)
Inv == Moment /\ Full /\ Quiet /\ Constant
\* every source is owned by exactly one rank, which is one of the closest
ASSUME \A n \in 1..NR : \A dist \in [1..n -> DIST] : Cardinality({ i \in 1..n : Owns(dist, i) }) = 1 /\ \A i \in 1..n : Owns(dist, i) => dist[i] = Best(dist)
\* the modes are those of the reference elements: they vanish in the mean over the vertices of cubes, and are 1 in the first corner for mode 0
ASSUME \A K \in {1, 2, 4} : \A m \in 0..7 : LET S == { <<x, y, z>> : x \in {0, K}, y \in {0, K}, z \in {0, K} } IN
         (m > 0) => \E p \in S : \E q \in S : Basis("hex", K, m, p) = -Basis("hex", K, m, q)
=============================================================================
