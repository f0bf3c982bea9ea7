-------------------------------- MODULE Comm --------------------------------
(* Communication structure of a partitioned mesh.                            *)
(* adj[e][f]: neighbour of element e at local face f or -1; pa: partitions;  *)
(* tg: time groups.  All ids are 0-based, sequences are indexed by id + 1.   *)
EXTENDS Integers, Sequences, FiniteSets

Els(adj) == 0..(Len(adj) - 1)
\* element faces of partition p which touch another partition
CommFaces(adj, pa, p) ==
  { x \in Els(adj) \X (1..Len(adj[1])) :
      /\ pa[x[1] + 1] = p
      /\ adj[x[1] + 1][x[2]] # -1
      /\ pa[adj[x[1] + 1][x[2]] + 1] # p }
\* the same physical face as seen from the other side
Twins(adj, x) == { y \in { adj[x[1] + 1][x[2]] } \X (1..Len(adj[1])) : adj[y[1] + 1][y[2]] = x[1] }
\* channel of a face: local group, remote partition, remote group
ChannelOf(adj, pa, tg, x) == LET n == adj[x[1] + 1][x[2]] IN <<tg[x[1] + 1], pa[n + 1], tg[n + 1]>>
Channels(adj, pa, tg, p) == { ChannelOf(adj, pa, tg, x) : x \in CommFaces(adj, pa, p) }
FacesOf(adj, pa, tg, p, c) == { x \in CommFaces(adj, pa, p) : ChannelOf(adj, pa, tg, x) = c }
Mirror(p, c) == <<c[3], p, c[1]>>
Send(adj, pa, e) == \E f \in 1..Len(adj[1]) : adj[e + 1][f] # -1 /\ pa[adj[e + 1][f] + 1] # pa[e + 1]
=============================================================================
