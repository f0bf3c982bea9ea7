------------------------------ MODULE Friction ------------------------------
(* Linear slip weakening on a fault point.  A fault point holds a slip per     *)
(* component and the coefficient of friction which belongs to it; a step gets  *)
(* the total normal stress and the trial traction (the one of a locked fault). *)
EXTENDS Integers, Sequences
Max2(a, b) == IF a >= b THEN a ELSE b
Mag(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1
RECURSIVE SqSum(_)
SqSum(v) == IF v = << >> THEN 0 ELSE v[1] * v[1] + SqSum(Tail(v))
\* strength: friction of the compressive (negative) normal stress; cohesion counts as compression
Strength(mu, sn, co) == Max2(0, -(mu * sn + co))
\* the point slides iff the trial traction exceeds the strength (unit of the latter: 1/k of the former)
Slides(trial, st, k) == k * k * SqSum(trial) > st * st
\* linear weakening, clamped; slip and dc in the same unit
Weak(mus, mud, dc, dd) == IF dd >= dc THEN mud ELSE mus - ((mus - mud) * dd) \div dc
=============================================================================
