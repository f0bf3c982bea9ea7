-------------------------------- MODULE Share -------------------------------
(* Contract of the shared-memory work distribution.                          *)
(*                                                                           *)
(* A region (tg, step, id, first, size, prio, sparse types) is handed out in *)
(* one part per worker.  The scheduler makes a region ready for all workers, *)
(* each worker takes its part once, marks it in progress and finished; the   *)
(* region is finished if all parts are.  Between two balancing steps the     *)
(* parts of a region are fixed, disjoint and cover the region.               *)
(*                                                                           *)
(* The contract is a monitor (Broken/Effect), used for the recorded calls of *)
(* the real classes (ShareRec) and checked for consistency with itself by    *)
(* the model MC_Share (any number of workers in any order).                  *)
EXTENDS Integers, Sequences, FiniteSets

RDY == 0  IPR == 1  FIN == 2  WAI == 3
SETALL == 0  GET == 1  EIPR == 2  EFIN == 3  STAT == 4  BAL == 5  RESET == 6

If(cond, name) == IF cond THEN {name} ELSE {}
\* configuration c: wrk (1 for workers, per thread), rg (regions), sp (sparse type per entity)
Threads(c) == 1..Len(c.wrk)
Wrks(c) == { t \in Threads(c) : c.wrk[t] = 1 }
Rgs(c) == 1..Len(c.rg)
Id(c, g) == c.rg[g][3]
First(c, g) == c.rg[g][4]
Size(c, g) == c.rg[g][5]
Prio(c, g) == c.rg[g][6]
Rg(c, id) == CHOOSE g \in Rgs(c) : Id(c, g) = id
HasBits(x, m) == (x \div m) % 2 = 1                 \* m is a single bit
NSp(c, to, m) == Cardinality({ i \in 1..to : HasBits(c.sp[i], m) })

Unknown == <<-1, -1>>
Init0(c) == [ st   |-> [g \in Rgs(c) |-> [w \in Wrks(c) |-> WAI]],
              part |-> [g \in Rgs(c) |-> [w \in Wrks(c) |-> Unknown]] ]     \* as handed out since the last balancing step

\* the known parts fit together, and if all are known they cover the region
PartsOk(c, g, p) ==
  LET known == { w \in Wrks(c) : p[w] # Unknown }  f == First(c, g)  s == Size(c, g)
      ids(w) == p[w][1]..(p[w][1] + p[w][2] - 1) IN
  /\ \A w \in known : p[w][2] >= 0 /\ (p[w][2] > 0 => p[w][1] >= f /\ p[w][1] + p[w][2] <= f + s)
  /\ \A v, w \in known : v # w => ids(v) \cap ids(w) = {}
  /\ known = Wrks(c) => UNION { ids(w) : w \in known } = f..(f + s - 1)

Broken(c, s, ev) ==
  CASE ev[1] = SETALL -> If(\E w \in Wrks(c) : s.st[Rg(c, ev[2])][w] \notin {FIN, WAI}, "scheduled twice")
    [] ev[1] = GET ->
         LET w == ev[2] + 1  ready == { g \in Rgs(c) : s.st[g][w] = RDY } IN
         IF w \notin Wrks(c) THEN {"not a worker"}
         ELSE IF ev[3] = 0 THEN If(ready # {}, "work not handed out")
         ELSE LET g == Rg(c, ev[6]) IN
                If(g \notin ready, "work which is not scheduled")
           \cup If(\E x \in ready : Prio(c, x) > Prio(c, g), "priority")
           \cup If(ev[4] # c.rg[g][1] \/ ev[5] # c.rg[g][2], "time group or step")
           \cup If(s.part[g][w] # Unknown /\ s.part[g][w] # <<ev[7], ev[8]>>, "parts change between balancing steps")
           \cup If(~ PartsOk(c, g, [s.part[g] EXCEPT ![w] = <<ev[7], ev[8]>>]), "parts are no partition of the region")
           \cup If(ev[8] > 0 /\ \E y \in 1..Len(c.rg[g][7]) : ev[8 + y] # NSp(c, ev[7], c.rg[g][7][y]), "first sparse entity")
    [] ev[1] = EIPR -> If(s.st[Rg(c, ev[3])][ev[2] + 1] # RDY, "started without being scheduled")
    [] ev[1] = EFIN -> If(s.st[Rg(c, ev[3])][ev[2] + 1] # IPR, "finished without being started")
    [] ev[1] = STAT -> If((ev[4] = 1) # (\A w \in Wrks(c) : s.st[Rg(c, ev[2])][w] = ev[3]), "status of the region")
    [] OTHER -> {}
Effect(c, s, ev) ==
  CASE ev[1] = SETALL -> [s EXCEPT !.st[Rg(c, ev[2])] = [w \in Wrks(c) |-> RDY]]
    [] ev[1] = GET /\ ev[3] = 1 /\ (ev[2] + 1) \in Wrks(c) -> [s EXCEPT !.part[Rg(c, ev[6])][ev[2] + 1] = <<ev[7], ev[8]>>]
    [] ev[1] = EIPR -> [s EXCEPT !.st[Rg(c, ev[3])][ev[2] + 1] = IPR]
    [] ev[1] = EFIN -> [s EXCEPT !.st[Rg(c, ev[3])][ev[2] + 1] = FIN]
    [] ev[1] = BAL -> [s EXCEPT !.part = [g \in Rgs(c) |-> [w \in Wrks(c) |-> Unknown]]]
    [] ev[1] = RESET -> [s EXCEPT !.st = [g \in Rgs(c) |-> [w \in Wrks(c) |-> WAI]]]
    [] OTHER -> s
\* who works: all threads, or all but the first one if it only schedules
RolesOk(c) == LET n == Len(c.wrk) IN
  /\ \A t \in 1..n : c.sch[t] = (IF t = 1 THEN 1 ELSE 0) /\ c.com[t] = c.sch[t]
  /\ \A t \in 1..n : c.wrk[t] = (IF t = 1 /\ c.sep = 1 /\ n > 1 THEN 0 ELSE 1)
=============================================================================
