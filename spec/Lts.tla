-------------------------------- MODULE Lts ---------------------------------
(* Contract of the rate-2 local time stepping (clustered ADER-DG).          *)
(*                                                                          *)
(* Elements 0..N-1 belong to time groups and to ranks.  One step of an      *)
(* element over [a,b] is: one prediction (ck), one volume and one local     *)
(* surface update, one source update if it holds sources, and one neighbour *)
(* update per contributing face, which has to use the face-neighbour's      *)
(* time-integrated prediction over exactly [a,b].  Nothing is said about    *)
(* threads, buffers or messages: any order of the kernel calls with these   *)
(* properties is a correct schedule.                                        *)
(*                                                                          *)
(* The contract is a monitor: Broken(c,s,ev) is the set of clauses which    *)
(* the event ev violates in state s, Effect(c,s,ev) the next state (total). *)
(* It judges the schedules of the model LtsImpl (which reproduces the       *)
(* scheduler of src/time and its buffers) as well as traces recorded from   *)
(* the real solver (LtsTrace).                                              *)
EXTENDS Integers, Sequences, FiniteSets

CK == 0   VOL == 1   LOC == 2   SRC == 3   NEI == 4

\* ---- configuration c: tgs, dt, syncs, tg, rank, src, fa
Els(c) == 0..(Len(c.tg) - 1)
Tg(c, e) == c.tg[e + 1]
Rank(c, e) == c.rank[e + 1]
Fa(c, e, f) == c.fa[e + 1][f + 1]     \* <<kind (0 neighbour, 1 outflow, 2 free surface), element, face, vertex id>>
Fas(c, e) == 0..(Len(c.fa[e + 1]) - 1)
Contrib(c, e) == { f \in Fas(c, e) : Fa(c, e, f)[1] # 1 }
RECURSIVE SyncT(_, _)
SyncT(c, i) == IF i = 0 THEN 0 ELSE c.syncs[i] + SyncT(c, i - 1)
EndT(c) == SyncT(c, Len(c.syncs))
SyncTimes(c) == { SyncT(c, i) : i \in 0..Len(c.syncs) }

\* a step [a,b] of group g: macro steps of 2^(G-1) fundamental steps from the last synchronisation point on, the last
\* one is shortened to hit the next synchronisation point; a macro step has 2^(G-1-g) equal steps of group g.
\* Empty steps at a synchronisation point change nothing and are allowed.
StepOk(c, g, a, b) ==
  IF a = b THEN a \in SyncTimes(c)
  ELSE \E i \in 1..Len(c.syncs) :
         LET s0 == SyncT(c, i - 1)  s1 == SyncT(c, i) IN
         /\ s0 <= a /\ a < s1 /\ b <= s1
         /\ LET M == c.dt * 2^(c.tgs - 1)
                m0 == s0 + ((a - s0) \div M) * M
                m1 == IF m0 + M < s1 THEN m0 + M ELSE s1
                k == 2^(c.tgs - 1 - g)
            IN /\ (b - a) * k = m1 - m0
               /\ \E j \in 0..(k - 1) : (a - m0) * k = j * (m1 - m0)

\* ---- state
Init0(c) == [ a    |-> [e \in Els(c) |-> 0], b |-> [e \in Els(c) |-> 0],      \* current (or last) step
              done |-> [e \in Els(c) |-> {}],                                \* work done in it: VOL, LOC, SRC, <<NEI,f>>
              new  |-> [e \in Els(c) |-> TRUE] ]                             \* no step taken yet
Work(c, e) == {<<VOL>>, <<LOC>>} \cup (IF c.src[e + 1] = 1 THEN {<<SRC>>} ELSE {}) \cup { <<NEI, f>> : f \in Contrib(c, e) }
Complete(c, s, e) == s.new[e] \/ s.done[e] = Work(c, e)
Clock(c, s, e) == s.b[e]

\* ---- events: <<kind, rank, thread, e, f, a, b, n, fa2, v, via, mat>>
Item(ev) == IF ev[1] = NEI THEN <<NEI, ev[5]>> ELSE <<ev[1]>>

\* neighbour data of face f of e: from the right element over the own interval, with the right orientation
NeighData(c, s, ev) ==
  LET e == ev[4]  x == Fa(c, e, ev[5])  n == IF x[1] = 0 THEN x[2] ELSE e IN
  IF s.a[e] = s.b[e] THEN ev[8] \in {-1, n} /\ (ev[8] = n => ev[6] = ev[7])
  ELSE ev[8] = n /\ ev[6] = s.a[e] /\ ev[7] = s.b[e]
NeighIds(c, s, ev) ==
  LET e == ev[4]  x == Fa(c, e, ev[5]) IN
  (x[1] = 0 /\ (ev[11] = 0 \/ s.a[e] # s.b[e])) => ev[9] = x[3] /\ ev[10] = x[4]
Remote(c, ev) == LET x == Fa(c, ev[4], ev[5]) IN x[1] = 0 /\ Rank(c, x[2]) # ev[2]

If(cond, name) == IF cond THEN {name} ELSE {}
Broken(c, s, ev) ==
  LET e == ev[4] IN
  IF e \notin Els(c) \/ (e \in Els(c) /\ Rank(c, e) # ev[2]) THEN {"foreign element"}
  ELSE If(ev[12] = 0, "operators of another element") \cup If(ev[12] = 2, "concurrent updates of an element") \cup
  CASE ev[1] = CK ->
           If(~ Complete(c, s, e), "step before previous complete")
      \cup If(ev[11] # 1 \/ ~ StepOk(c, Tg(c, e), ev[6], ev[7]), "step length")
      \cup If(ev[6] # s.b[e], "gap")
      \cup If(ev[6] \in SyncTimes(c) /\ ev[7] > ev[6] /\
              ~ (\A x \in Els(c) : Rank(c, x) = ev[2] => (s.b[x] > ev[6] \/ (s.b[x] = ev[6] /\ Complete(c, s, x)))), "next interval before synchronisation")
    [] ev[1] \in {VOL, LOC} ->
           If(Item(ev) \in s.done[e], "twice")
      \cup If(s.new[e], "work before prediction")
      \cup If(ev[11] # 1 \/ ~ (IF s.a[e] = s.b[e] THEN ev[6] = ev[7] ELSE ev[8] = e /\ ev[6] = s.a[e] /\ ev[7] = s.b[e]), "own data")
    [] ev[1] = SRC ->
           If(Item(ev) \in s.done[e], "twice")
      \cup If(s.new[e], "work before prediction")
      \cup If(c.src[e + 1] # 1, "source in element without sources")
      \cup If(ev[11] # 1 \/ ev[6] # s.a[e] \/ ev[7] # s.b[e], "source interval")
    [] ev[1] = NEI ->
         IF ev[5] \notin Contrib(c, e) THEN {"non-contributing face"}
         ELSE If(Item(ev) \in s.done[e], "twice")
      \cup If(s.new[e], "work before prediction")
      \cup If(~ NeighData(c, s, ev), IF Remote(c, ev) THEN "remote neighbour data" ELSE "neighbour data")
      \cup If(~ NeighIds(c, s, ev), IF Remote(c, ev) THEN "remote neighbour ids" ELSE "neighbour ids")
      \cup If((ev[11] = 1) # Remote(c, ev), "data of a remote neighbour comes by message")
    [] OTHER -> {"unknown event"}
Effect(c, s, ev) ==
  LET e == ev[4] IN
  IF e \notin Els(c) THEN s
  ELSE IF ev[1] = CK THEN [s EXCEPT !.a[e] = ev[6], !.b[e] = ev[7], !.done[e] = {}, !.new[e] = FALSE]
  ELSE [s EXCEPT !.done[e] = @ \cup {Item(ev)}]

\* at the end every element is complete and at the end time
FinalBroken(c, s) == If(\E e \in Els(c) : ~ Complete(c, s, e), "unfinished step") \cup If(\E e \in Els(c) : s.b[e] # EndT(c), "end time")
=============================================================================
