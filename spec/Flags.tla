-------------------------------- MODULE Flags -------------------------------
(* Time relations of the elements of one partition to their neighbours.      *)
(* The elements of a partition are stored as inner elements per time group   *)
(* followed by send elements per time group; nIn/nSe are the numbers per     *)
(* time group.  The channels chs = <<local group, remote partition, remote   *)
(* group, size>> list the faces of the send elements one after the other in  *)
(* se (elements) and sf (faces, 0-based).  Ids are 0-based, -1 is no element.*)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
Sum(s) == SumTo(s, Len(s))
\* time group (1-based) by position
GroupOf(nIn, nSe, e) ==
  LET all == nIn \o nSe  k == CHOOSE i \in 1..Len(all) : e >= SumTo(all, i - 1) /\ e < SumTo(all, i)
  IN IF k > Len(nIn) THEN k - Len(nIn) ELSE k
InLayout(nIn, nSe, e) == e >= 0 /\ e < Sum(nIn \o nSe)
\* remote group (1-based) of a face of a send element, {} if it is no face of a channel
ChanGroups(chs, se, sf, e, f) ==
  { chs[c][3] + 1 : c \in { d \in 1..Len(chs) : \E i \in (1 + SumTo([k \in 1..Len(chs) |-> chs[k][4]], d - 1))..SumTo([k \in 1..Len(chs) |-> chs[k][4]], d) :
                               se[i] = e /\ sf[i] = f } }
Rel(a, b) == IF a = b THEN "eq" ELSE IF a < b THEN "lt" ELSE "gt"
\* relation seen from the partition alone
LocalRel(nIn, nSe, chs, se, sf, adj, e, f) ==
  LET g == GroupOf(nIn, nSe, e)  n == adj[e + 1][f + 1]  c == ChanGroups(chs, se, sf, e, f)
  IN IF n # -1 THEN Rel(g, GroupOf(nIn, nSe, n))
     ELSE IF c # {} THEN Rel(g, CHOOSE x \in c : TRUE) ELSE "eq"
=============================================================================
