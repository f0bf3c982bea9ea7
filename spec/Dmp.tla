--------------------------------- MODULE Dmp ---------------------------------
(* Relaxed discrete maximum principle.  Extrema of one quantity of one fused   *)
(* run are pairs << min, max >>; values are multiples of 10^-5, tolerances     *)
(* multiples of 10^-8.                                                         *)
EXTENDS Integers, Sequences
Lo(a, b) == IF a <= b THEN a ELSE b
Hi(a, b) == IF a >= b THEN a ELSE b
\* range of an element and its neighbours
RECURSIVE Hull(_, _)
Hull(own, nb) == IF nb = << >> THEN own ELSE Hull(<< Lo(own[1], nb[1][1]), Hi(own[2], nb[1][2]) >>, Tail(nb))
EPS0 == 10000
Tol(h) == Hi(EPS0, h[2] - h[1])      \* max( 10^-4, 10^-3 range )
\* slack of the candidate: how far inside of the relaxed range it is
Slack(h, c) == Lo(1000 * (c[1] - h[1]) + Tol(h), 1000 * (h[2] - c[2]) + Tol(h))
Within(h, c) == Slack(h, c) >= 0
Admissible(own, nb, can) == \A q \in DOMAIN own : Within(Hull(own[q], nb[q]), can[q])
=============================================================================
