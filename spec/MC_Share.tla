------------------------------ MODULE MC_Share ------------------------------
(* Design of the work distribution: the scheduler makes regions ready when   *)
(* they are finished or waiting, workers take, process and finish their      *)
(* parts, the load balancer redistributes while everything rests.  Every     *)
(* step is taken with the events which the contract Share monitors, any      *)
(* distribution of the entities to the workers is possible.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NW, S1, S2, PHASES
SIZES == <<S1, S2>>
S == INSTANCE Share

Conf == [ wrk |-> [t \in 1..NW |-> 1], sep |-> 0, sp |-> <<>>, sch |-> [t \in 1..NW |-> 0], com |-> [t \in 1..NW |-> 0],
          rg  |-> [g \in 1..Len(SIZES) |-> <<0, 0, g - 1, 0, SIZES[g], Len(SIZES) - g, <<>>>>] ]
W == 1..NW
G == 1..Len(SIZES)
\* all ways of cutting a region of n entities into NW consecutive parts
Cuts(n) == { p \in [W -> (0..n) \X (0..n)] :
               /\ p[1][1] = 0 /\ \A w \in 1..(NW - 1) : p[w + 1][1] = p[w][1] + p[w][2]
               /\ p[NW][1] + p[NW][2] = n }
VARIABLES mon, parts, cur, done, bad, sched, phase
\* mon: monitor; parts: distribution; cur: region a worker is in (0: none) and whether it is in progress;
\* done: how often each entity was processed since the region was made ready; sched: region ever made ready
vars == <<mon, parts, cur, done, bad, sched, phase>>
Init == /\ mon = S!Init0(Conf) /\ parts \in [G -> UNION { Cuts(SIZES[g]) : g \in G }] /\ \A g \in G : parts[g] \in Cuts(SIZES[g])
        /\ cur = [w \in W |-> 0] /\ done = [g \in G |-> [i \in 0..(SIZES[g] - 1) |-> 0]] /\ bad = {} /\ sched = [g \in G |-> FALSE] /\ phase = 0
Ev(ev) == mon' = S!Effect(Conf, mon, ev) /\ bad' = bad \cup S!Broken(Conf, mon, ev)
Rests(g) == \A w \in W : mon.st[g][w] = S!FIN \/ (\A v \in W : mon.st[g][v] = S!WAI)
SetAll(g) == /\ (\A w \in W : mon.st[g][w] = S!FIN) \/ (\A w \in W : mon.st[g][w] = S!WAI)
             /\ Ev(<<S!SETALL, g - 1>>) /\ done' = [done EXCEPT ![g] = [i \in DOMAIN @ |-> 0]] /\ sched' = [sched EXCEPT ![g] = TRUE]
             /\ UNCHANGED <<parts, cur, phase>>
\* the region of the highest priority among the ready ones (here: the smallest number)
Get(w) == /\ cur[w] = 0
          /\ LET ready == { g \in G : mon.st[g][w] = S!RDY } IN
             /\ ready # {}
             /\ LET g == CHOOSE x \in ready : \A y \in ready : x <= y IN
                  /\ Ev(<<S!GET, w - 1, 1, 0, 0, g - 1, parts[g][w][1], parts[g][w][2]>>)
                  /\ cur' = [cur EXCEPT ![w] = -g]
          /\ UNCHANGED <<parts, done, sched, phase>>
Start(w) == cur[w] < 0 /\ Ev(<<S!EIPR, w - 1, -cur[w] - 1>>) /\ cur' = [cur EXCEPT ![w] = -@] /\ UNCHANGED <<parts, done, sched, phase>>
Finish(w) == /\ cur[w] > 0
             /\ LET g == cur[w]  p == parts[g][w] IN
                  /\ done' = [done EXCEPT ![g] = [i \in DOMAIN @ |-> IF i >= p[1] /\ i < p[1] + p[2] THEN @[i] + 1 ELSE @[i]]]
                  /\ Ev(<<S!EFIN, w - 1, g - 1>>)
             /\ cur' = [cur EXCEPT ![w] = 0] /\ UNCHANGED <<parts, sched, phase>>
Balance == /\ phase < PHASES /\ \A w \in W : cur[w] = 0 /\ \A g \in G : mon.st[g][w] # S!RDY
           /\ phase' = phase + 1
           /\ parts' \in [G -> UNION { Cuts(SIZES[g]) : g \in G }] /\ \A g \in G : parts'[g] \in Cuts(SIZES[g])
           /\ mon' = [S!Effect(Conf, mon, <<S!BAL>>) EXCEPT !.st = S!Effect(Conf, mon, <<S!RESET>>).st]
           /\ sched' = [g \in G |-> FALSE] /\ UNCHANGED <<cur, done, bad>>
Next == (\E g \in G : SetAll(g)) \/ (\E w \in W : Get(w) \/ Start(w) \/ Finish(w)) \/ Balance
Spec == Init /\ [][Next]_vars
NothingBroken == bad = {}
\* never twice; all of them once the region is reported as finished
ExactlyOnce == \A g \in G : sched[g] =>
  /\ \A i \in DOMAIN done[g] : done[g][i] <= 1
  /\ ((\A w \in W : mon.st[g][w] = S!FIN) => (\A i \in DOMAIN done[g] : done[g][i] = 1))
=============================================================================
