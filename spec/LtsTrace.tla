------------------------------ MODULE LtsTrace ------------------------------
(* Traces of the real solver against the contract Lts.  All violated        *)
(* clauses are reported, each property looks at the ones which concern it.  *)
EXTENDS RecCheck, SequencesExt
L == INSTANCE Lts

Step(r, s, ev) == [st |-> L!Effect(r, s.st, ev), bad |-> s.bad \cup L!Broken(r, s.st, ev)]
Run(r) == FoldLeft(LAMBDA s, ev : Step(r, s, ev), [st |-> L!Init0(r), bad |-> {}], r.ev)

\* receivers: one sample per multiple of the sampling interval in [0, end), of the own element at that time
Ceil(a, b) == (a + b - 1) \div b
RecvBroken(r, x) ==
  LET n == Ceil(4 * L!EndT(r), r.freq8)  rows == x[3] IN
       L!If(x[2] # L!Rank(r, x[1]), "receiver file")
  \cup L!If(Len(rows) # n, "receiver sample count")
  \cup L!If(\E j \in 1..Len(rows) : rows[j][1] # (j - 1) * r.freq8, "receiver sample times")
  \cup L!If(\E j \in 1..Len(rows) : rows[j][2] # rows[j][1] \/ rows[j][3] # x[1], "receiver values")

All(r) ==
  LET s == Run(r) IN
       s.bad
  \cup (IF r.end = "ok" THEN L!FinalBroken(r, s.st)
                          \cup L!If(r.outstanding # 0, "messages left over")
                          \cup UNION { RecvBroken(r, r.recvs[i]) : i \in 1..Len(r.recvs) }
        ELSE {"run does not end: " \o r.end})
  \cup L!If(r.sizeerr # 0, "message size")

RecNext == RecStepSet(All)
RecSpec == RecInit /\ [][RecNext]_recno
=============================================================================
