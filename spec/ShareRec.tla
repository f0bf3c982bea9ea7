------------------------------ MODULE ShareRec ------------------------------
(* Recorded calls of the real Shared/LoadBalancing classes against Share.    *)
EXTENDS RecCheck, SequencesExt
S == INSTANCE Share

Run(r) == FoldLeft(LAMBDA s, ev : [st |-> S!Effect(r, s.st, ev), bad |-> s.bad \cup S!Broken(r, s.st, ev)], [st |-> S!Init0(r), bad |-> {}], r.ev)
\* the shared zero-initialisation touches exactly its array
NumaOk(r) == Len(r.a) = r.n + 4 /\ \A i \in 1..Len(r.a) : r.a[i] = (IF i \in 3..(r.n + 2) THEN 0 ELSE 77)
All(r) == IF r.kind = "numa" THEN S!If(~ NumaOk(r), "zero initialisation")
          ELSE Run(r).bad \cup S!If(~ S!RolesOk(r), "roles of the threads")
RecNext == RecStepSet(All)
RecSpec == RecInit /\ [][RecNext]_recno
=============================================================================
