------------------------------- MODULE MC_Dmp -------------------------------
(* All small patterns of extrema of an element, its neighbours, and a          *)
(* candidate; neighbours are added one after the other.                        *)
EXTENDS Dmp, FiniteSets
CONSTANTS VALS, NNB, NQ
VARIABLES own, nb, can
vars == << own, nb, can >>
Ext == { p \in (VALS \X VALS) : p[1] <= p[2] }
Qs == 1..NQ
Init == own \in [Qs -> Ext] /\ can \in [Qs -> Ext] /\ nb = [ q \in Qs |-> << >> ]
Next == /\ Len(nb[1]) < NNB
        /\ \E e \in [Qs -> Ext] : nb' = [ q \in Qs |-> Append(nb[q], e[q]) ]
        /\ UNCHANGED << own, can >>
Spec == Init /\ [][Next]_vars
H(q) == Hull(own[q], nb[q])
\* an unchanged solution is accepted, and so is everything inside the range
Sound == (\A q \in Qs : can[q][1] >= H(q)[1] /\ can[q][2] <= H(q)[2]) => Admissible(own, nb, can)
\* nothing is accepted which creates an extremum beyond the tolerance
Tight == Admissible(own, nb, can) => \A q \in Qs : 1000 * (H(q)[1] - can[q][1]) <= Tol(H(q)) /\ 1000 * (can[q][2] - H(q)[2]) <= Tol(H(q))
\* a single quantity decides
Single == (\E q \in Qs : ~ Within(H(q), can[q])) <=> ~ Admissible(own, nb, can)
\* order and repetition of neighbours do not matter
RECURSIVE Rev(_)
Rev(s) == IF s = << >> THEN s ELSE Append(Rev(Tail(s)), s[1])
Order == \A q \in Qs : Hull(own[q], Rev(nb[q]) \o nb[q]) = H(q)
Inv == Sound /\ Tight /\ Single /\ Order
\* further neighbours never turn acceptance into rejection
Widen == [][ Admissible(own, nb, can) => Admissible(own, nb', can) ]_vars
=============================================================================
