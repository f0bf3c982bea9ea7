------------------------------- MODULE MC_Swe -------------------------------
(* A channel of N cells between two walls or with open ends.  The solver may  *)
(* split the jumps between the two cells of a face in any way the contract    *)
(* leaves open (it is an arbitrary choice here); mass, dry cells and lakes at *)
(* rest have to follow from the contract alone.                               *)
EXTENDS Swe, TLC, FiniteSets
CONSTANTS N, H, QM, BM, MAXSTEP
Q == -QM..QM
B == -BM..0
VARIABLES cells, ends, step, out
vars == <<cells, ends, step, out>>
Cell == [h : H, b : B, q : Q]
Init == /\ cells \in [1..N -> Cell] /\ (\A c \in 1..N : ~ Wet(cells[c]) => cells[c].h = 0 /\ cells[c].q = 0) /\ (\A c \in 1..N : Wet(cells[c]) => cells[c].h > 0)
        /\ ends \in {1, 2} /\ step = 0 /\ out = 0
\* faces 0..N: face f between cells f and f + 1; face 0 belongs to cell 1 with the normal pointing outwards
L(f) == IF f = 0 THEN Mirror(cells[1]) ELSE cells[f]
R(f) == IF f \in {0, N} THEN L(f) ELSE cells[f + 1]
Ty(f) == IF f \in {0, N} THEN ends ELSE 0
\* updates <<left, right>> of the mass which the contract admits
Splits(f) ==
  LET l == L(f)  r == R(f)  s == Seen(Ty(f), l, r) IN
    IF ~ Active(Ty(f), l, r) THEN { <<0, 0>> }
    ELSE IF Wall(Ty(f), l, r) THEN { IF Wet(l) THEN <<-l.q, 0>> ELSE <<0, r.q>> }
    ELSE IF Ty(f) = 1 \/ AtRest(s) THEN { <<0, 0>> }
    ELSE { <<x, JumpQ(s) - x>> : x \in Q }
Next == /\ step < MAXSTEP /\ step' = step + 1 /\ UNCHANGED ends
        /\ \E nu \in { x \in [0..N -> UNION { Splits(f) : f \in 0..N }] : \A f \in 0..N : x[f] \in Splits(f) } : \E q \in [1..N -> Q] :
             /\ \A c \in 1..N : ~ Wet(cells[c]) => q[c] = 0
             /\ (\A f \in 1..(N - 1) : AtRest(Seen(0, L(f), R(f)))) /\ (\A c \in 1..N : cells[c].q = 0) => \A c \in 1..N : q[c] = 0
             /\ cells' = [ c \in 1..N |-> [cells[c] EXCEPT !.q = q[c],
                            !.h = @ - (nu[c][1] + (IF c = 1 THEN nu[0][1] ELSE nu[c - 1][2]))] ]
             \* what flows out of the open ends
             /\ out' = out + (IF ends = 1 THEN (IF Wet(cells[N]) THEN cells[N].q ELSE 0) - (IF Wet(cells[1]) THEN cells[1].q ELSE 0) ELSE 0)
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(c) == IF c = 0 THEN 0 ELSE Sum(c - 1) + cells[c].h
Mass == Sum(N)
RECURSIVE SumP(_)
SumP(c) == IF c = 0 THEN 0 ELSE SumP(c - 1) + cells'[c].h
Conserved == [][SumP(N) + out' = Sum(N) + out]_vars
DryStay == [][\A c \in 1..N : cells'[c].b = cells[c].b /\ (~ Wet(cells[c]) => cells'[c] = cells[c])]_vars
Lake == \A c, d \in 1..N : cells[c].q = 0 /\ (Wet(cells[c]) /\ Wet(cells[d]) => cells[c].h + cells[c].b = cells[d].h + cells[d].b)
LakeStays == [][Lake => cells' = cells]_vars
=============================================================================
