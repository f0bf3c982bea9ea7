--------------------------------- MODULE Swe ---------------------------------
(* Shallow water, finite volumes: what the updates of faces and cells owe to  *)
(* mass conservation, lakes at rest and dry cells.                            *)
(* Quantities are integers: heights and bathymetry in units of 1/4, normal    *)
(* momentum in units of 1/20 (components 1/4, normals in units of 1/5).       *)
(* A side of a face is a record [h, b, q]: height, bathymetry, normal         *)
(* momentum.  A cell with b >= 0 is dry.                                      *)
EXTENDS Integers, Sequences
Wet(s) == s.b < 0
Mirror(s) == [s EXCEPT !.q = -@]
\* types of faces: 0 between cells, 1 outflow, 2 reflecting
\* the state on both sides as seen by the solver
Seen(ty, l, r) ==
  LET o == IF ty = 0 THEN r ELSE IF ty = 1 THEN l ELSE Mirror(l) IN
    IF Wet(l) /\ ~ Wet(o) THEN <<l, Mirror(l)>> ELSE IF ~ Wet(l) /\ Wet(o) THEN <<Mirror(o), o>> ELSE <<l, o>>
Active(ty, l, r) == Wet(l) \/ (ty = 0 /\ Wet(r))
Wall(ty, l, r) == ty = 2 \/ (ty = 0 /\ Wet(l) # Wet(r))
\* jump of the mass flux (units 1/20), and of the momentum flux (units 1/1000, rounded)
JumpQ(s) == s[2].q - s[1].q
Div(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Conv(s) == (10 * s.q * s.q) \div s.h
JumpM(s) == LET i == (s[1].h + s[2].h) * ((s[2].h + s[2].b) - (s[1].h + s[1].b)) IN
  Conv(s[2]) - Conv(s[1]) + Div(i * 98066, 320) + Div(i, 640)
AtRest(s) == s[1].q = 0 /\ s[2].q = 0 /\ s[1].h + s[1].b = s[2].h + s[2].b
=============================================================================
