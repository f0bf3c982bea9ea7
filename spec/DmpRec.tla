------------------------------- MODULE DmpRec --------------------------------
(* Recorded verdicts of the real detection against Dmp.                        *)
EXTENDS RecCheck
D == INSTANCE Dmp
C(name, cond) == IF cond THEN {} ELSE {name}
RECURSIVE Pairs(_)
Pairs(s) == IF s = << >> THEN << >> ELSE << << s[1], s[2] >> >> \o Pairs(SubSeq(s, 3, Len(s)))
Slacks(r) == { D!Slack(D!Hull(r.cur[q], Pairs(r.nb[q])), r.can[q]) : q \in DOMAIN r.cur }
Margin(r) == IF r.dbl = 1 THEN 1 ELSE 500      \* rounding
Verdict(r) ==
  C("candidate within the range is flagged", (\A s \in Slacks(r) : s >= Margin(r)) => r.adm = 1)
  \cup C("candidate outside of the range is accepted", (\E s \in Slacks(r) : s <= -Margin(r)) => r.adm = 0)
  \cup C("input changed", r.kept = 1)
SetOf(s) == { s[i] : i \in DOMAIN s }
Extrema(r) == C("extrema", \A q \in DOMAIN r.v : /\ r.mn[q] \in SetOf(r.v[q]) /\ r.mx[q] \in SetOf(r.v[q])
                                                  /\ \A x \in SetOf(r.v[q]) : r.mn[q] <= x /\ x <= r.mx[q])
Bad(r) == IF r.k = "dmp" THEN Verdict(r) ELSE Extrema(r)
RecNext == RecStepSet(Bad)
RecSpec == RecInit /\ [][RecNext]_recno
=============================================================================
