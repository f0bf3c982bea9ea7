------------------------------- MODULE Points --------------------------------
(* Kinematic point sources: the moment they inject, who owns them, and the     *)
(* elements they act on.                                                       *)
(* A source s has an onset s.on, and samples s.v of its slip rate every s.d    *)
(* ticks, linearly interpolated between the samples and zero everywhere else.  *)
EXTENDS Integers, Sequences
LOCAL Mx(a, b) == IF a > b THEN a ELSE b
LOCAL Mn(a, b) == IF a < b THEN a ELSE b
RECURSIVE Trapez(_, _)
Trapez(v, n) == IF n = 0 THEN 0 ELSE Trapez(v, n - 1) + v[n] + v[n + 1]
\* integral of the slip rate up to t, in units of 1/(2d)
Cum(s, t) ==
  LET x == Mx(0, Mn(t - s.on, (Len(s.v) - 1) * s.d))
      i == x \div s.d
      o == x % s.d
  IN s.d * s.d * Trapez(s.v, i) + (IF o = 0 THEN 0 ELSE 2 * s.d * s.v[i + 1] * o + (s.v[i + 2] - s.v[i + 1]) * o * o)
Integral(s, a, b) == Cum(s, b) - Cum(s, a)
-------------------------------------------------------------------------------
(* The solver's way of getting there in a step [a, b]: full sample intervals   *)
(* between the first sample after a and the last sample before b, what is left *)
(* before and after, and minus the interval if it was covered from both sides. *)
Step(s, a, b) ==
  LET n == Len(s.v)
      end == s.on + (n - 1) * s.d
      last == Mn(Mx(b - s.on, 0) \div s.d, n - 1)
      first == Mn(Mx(a - s.on + s.d, 0) \div s.d, Mn(last + 1, n - 1))
      V(i) == s.v[i + 1]
      full == s.d * s.d * (Trapez(s.v, Mx(first, last)) - Trapez(s.v, first))
      twice == IF first > last THEN s.d * s.d * (V(last) + V(last + 1)) ELSE 0
      l == s.on + first * s.d - a
      left == IF first > 0 /\ s.on <= a /\ a <= end THEN l * l * (V(first - 1) - V(first)) + 2 * s.d * V(first) * l ELSE 0
      r == b - (s.on + last * s.d)
      right == IF last < n - 1 /\ s.on <= b /\ b <= end THEN r * r * (V(last + 1) - V(last)) + 2 * s.d * V(last) * r ELSE 0
  IN full - twice + left + right
-------------------------------------------------------------------------------
(* Ownership: the closest rank, the smallest one of them.  Every rank bids its *)
(* own number if it matches the smallest distance.                             *)
Best(dist) == CHOOSE x \in { dist[i] : i \in DOMAIN dist } : \A i \in DOMAIN dist : x <= dist[i]
Bids(dist) == { i \in DOMAIN dist : dist[i] = Best(dist) }
Owns(dist, i) == i \in Bids(dist) /\ \A j \in Bids(dist) : i <= j
-------------------------------------------------------------------------------
(* Geometry: elements are affine, given by the coordinates of their vertices;  *)
(* coordinates are integers in units of 1/K, K > 0.                            *)
Axes == [ tria |-> <<2, 3>>, quad |-> <<2, 4>>, tet |-> <<2, 3, 4>>, hex |-> <<2, 4, 5>> ]
Simplex(ty) == ty \in {"tria", "tet"}
Det2(a, b) == a[1] * b[2] - a[2] * b[1]
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - b[1] * (a[2] * c[3] - a[3] * c[2]) + c[1] * (a[2] * b[3] - a[3] * b[2])
Det(m) == IF Len(m) = 2 THEN Det2(m[1], m[2]) ELSE Det3(m[1], m[2], m[3])
Minus(a, b) == [ i \in DOMAIN a |-> a[i] - b[i] ]
\* reference coordinates of p in the element with vertices ves, in units of 1/K
Ref(ty, K, ves, p) ==
  LET ax == Axes[ty]
      m == [ i \in DOMAIN ax |-> Minus(ves[ax[i]], ves[1]) ]
      b == Minus(p, ves[1])
  IN [ i \in DOMAIN ax |-> (K * Det([m EXCEPT ![i] = b])) \div Det(m) ]
RECURSIVE Total(_)
Total(x) == IF x = << >> THEN 0 ELSE Head(x) + Total(Tail(x))
Inside(ty, K, r) == (\A i \in DOMAIN r : r[i] >= 0) /\ IF Simplex(ty) THEN Total(r) <= K ELSE \A i \in DOMAIN r : r[i] <= K
\* the modes of the first two orders (hierarchical ones for simplices, tensor products else), in units of 1/K^3
LOCAL Line(K, m, x) == IF m = 0 THEN K ELSE 2 * x - K
Basis(ty, K, m, r) ==
  CASE ty = "tria" -> K * K * <<K, 3 * r[2] - K, 2 * r[1] + r[2] - K>>[m + 1]
    [] ty = "tet"  -> K * K * <<K, 4 * r[3] - K, 3 * r[2] + r[3] - K, 2 * r[1] + r[2] + r[3] - K>>[m + 1]
    [] ty = "quad" -> K * Line(K, m % 2, r[1]) * Line(K, m \div 2, r[2])
    [] ty = "hex"  -> Line(K, m % 2, r[1]) * Line(K, (m \div 2) % 2, r[2]) * Line(K, m \div 4, r[3])
=============================================================================
