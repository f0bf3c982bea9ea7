------------------------------ MODULE MC_Store ------------------------------
(* Two files as an implementation would keep them: a log of arrays per file  *)
(* and an open handle; every read is judged by the contract Store.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NAMES, VALS, DEPTH
S == INSTANCE Store
F == 1..2
VARIABLES disk, handle, mon, bad, n
vars == <<disk, handle, mon, bad, n>>
Init == disk = [f \in F |-> <<>>] /\ handle = [f \in F |-> "closed"] /\ mon = [f \in F |-> S!Init0] /\ bad = {} /\ n = 0
Do(f, ev) == /\ S!Allowed(mon[f], ev) /\ n < DEPTH /\ n' = n + 1
             /\ bad' = bad \cup S!Broken(mon[f], ev) /\ mon' = [mon EXCEPT ![f] = S!Effect(mon[f], ev)]
Seqs == {<<>>} \cup { <<v>> : v \in VALS }
Create(f) == Do(f, [op |-> "create", name |-> ""]) /\ disk' = [disk EXCEPT ![f] = <<>>] /\ handle' = [handle EXCEPT ![f] = "write"]
Open(f) == Do(f, [op |-> "open", name |-> ""]) /\ handle' = [handle EXCEPT ![f] = "read"] /\ UNCHANGED disk
Close(f) == Do(f, [op |-> "close", name |-> ""]) /\ handle' = [handle EXCEPT ![f] = "closed"] /\ UNCHANGED disk
Set(f, k, v) == handle[f] = "write" /\ Do(f, [op |-> "set", name |-> k, ty |-> "idx", v |-> v]) /\ disk' = [disk EXCEPT ![f] = Append(@, <<k, v>>)] /\ UNCHANGED handle
Has(f, k) == \E i \in DOMAIN disk[f] : disk[f][i][1] = k
Look(f, k) == disk[f][CHOOSE i \in DOMAIN disk[f] : disk[f][i][1] = k][2]
Get(f, k) == handle[f] # "closed" /\ Has(f, k) /\ Do(f, [op |-> "get", name |-> k, ty |-> "idx", guard |-> 1, v |-> Look(f, k)]) /\ UNCHANGED <<disk, handle>>
Exists(f, k) == handle[f] # "closed" /\ Do(f, [op |-> "exists", name |-> k, res |-> IF Has(f, k) THEN 1 ELSE 0]) /\ UNCHANGED <<disk, handle>>
Next == \E f \in F : Create(f) \/ Open(f) \/ Close(f) \/ (\E k \in NAMES : Get(f, k) \/ Exists(f, k) \/ \E v \in Seqs : Set(f, k, v))
Spec == Init /\ [][Next]_vars
NoneBroken == bad = {}
\* an array never changes unless its file is created anew, and never because of the other file
Stable == [][\A f \in F : \A k \in DOMAIN mon[f].arr :
               \/ k \in DOMAIN mon'[f].arr /\ mon'[f].arr[k] = mon[f].arr[k]
               \/ mon'[f].arr = S!Empty /\ mon[f].mode = "closed" /\ mon'[f].mode = "write"]_vars
=============================================================================
