------------------------------ MODULE MC_Memory ------------------------------
(* Theorems of Memory over all instances of small size.  The state only      *)
(* selects the instance.                                                     *)
EXTENDS Memory, TLC
CONSTANTS NEN, NSP, MAXSZ, NBITS, NE, NF, K
VARIABLE in
\* flexible storage
FlexIn == [k : {"flex"}, n : 0..NEN, b : 0..1, masks : UNION { [1..m -> 1..(2^NBITS - 1)] : m \in 0..NSP }, sz : 0..MAXSZ, types : [1..NEN -> 0..(2^NBITS - 1)]]
\* one group on two ranks which mirror each other: entities 0..NE-1 inner, then NE send, then NE receive entities
A == [1..(3 * NE) -> [1..NF -> -1..(3 * NE - 1)]]
Buf == [k : {"buf"}, tg : 0..1, tgAd : 0..1]
Init == in \in FlexIn \cup Buf
Next == UNCHANGED in
Spec == Init /\ [][Next]_in
FlexOk == in.k = "flex" =>
  LET sz == [ m \in 1..Len(in.masks) |-> IF m = 1 THEN in.sz ELSE MAXSZ - in.sz ]
      f == Flex(in.n, in.b, in.masks, sz, in.types)  N == Len(f) - 1
      S == FlexSizes(in.n, in.b, in.masks, sz, in.types)
  IN /\ f[N + 1] = Total(S)
     /\ \A i \in 1..N : f[i] = -1 => S[i] = 0
     /\ Disjoint([ i \in 1..N |-> IF f[i] = -1 THEN <<0, 0>> ELSE <<f[i], f[i] + S[i]>> ])
     /\ \A i \in 1..N : f[i] # -1 => f[i] >= 0 /\ f[i] + S[i] <= f[N + 1]
\* two copies: the k-th message of a channel is written to the copy from which the receiver's updates read it,
\* and the copy is not used by the message after it
\* sender of group tg, receiver of group tgAd; updates of the receiver which use the k-th message
Users(tg, tgAd, k) == IF tgAd < tg THEN {2 * k, 2 * k + 1} ELSE {k}
SendNo(tg, tgAd, k) == IF tg < tgAd THEN 2 * k + 1 ELSE k
Copy(tg, tgAd, k) == IF tg < tgAd THEN RemoteCopyLt(SendNo(tg, tgAd, k)) ELSE RemoteCopyGe(SendNo(tg, tgAd, k))
BufOk == in.k = "buf" =>
  \A k \in 0..K : /\ \A u \in Users(in.tg, in.tgAd, k) : RecvCopy(<<in.tgAd, 0, in.tg, 1>>, u) = Copy(in.tg, in.tgAd, k)
                  /\ Copy(in.tg, in.tgAd, k) # Copy(in.tg, in.tgAd, k + 1)
=============================================================================
