------------------------------ MODULE StoreRec ------------------------------
(* Recorded calls of the real Hdf5 class on two files against Store.         *)
EXTENDS RecCheck, SequencesExt
S == INSTANCE Store
\* "driver" clauses: the driver may only issue allowed calls
Run(r) == FoldLeft(LAMBDA s, ev : LET x == s.st[ev.f + 1] IN
             IF ~ S!Allowed(x, ev) THEN [s EXCEPT !.bad = @ \cup {"driver: call not allowed"}]
             ELSE [st |-> [s.st EXCEPT ![ev.f + 1] = S!Effect(x, ev)], bad |-> s.bad \cup S!Broken(x, ev)],
           [st |-> <<S!Init0, S!Init0>>, bad |-> {}], r.ev)
All(r) == Run(r).bad
RecNext == RecStepSet(All)
RecSpec == RecInit /\ [][RecNext]_recno
=============================================================================
