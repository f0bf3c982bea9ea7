----------------------------- MODULE TimeGroups -----------------------------
(* Grouping of elements into time groups (edge_v, time/Groups).             *)
(*                                                                          *)
(* State: the assignment g of elements to groups.  It starts with the       *)
(* largest group allowed by the CFL time step of each element; action       *)
(* Lower(e, f) is one normalisation: e is lowered to one above its          *)
(* face-neighbour f.  The model leaves the order of normalisations open     *)
(* (chaotic iteration); Confluent says that whenever nothing is left to     *)
(* lower, the assignment is the greatest valid one - whatever the order.    *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS NEl, NGr        \* number of elements and of groups
El == 1..NEl
Gr == 0..(NGr - 1)

VARIABLES adj, g0, g
vars == <<adj, g0, g>>

Edges == { e \in SUBSET El : Cardinality(e) = 2 }
Nbrs(a, e) == { f \in El : {e, f} \in a }

Init == /\ adj \in SUBSET Edges
        /\ g0 \in [El -> Gr]
        /\ g = g0
Lower(e, f) == /\ f \in Nbrs(adj, e)
               /\ g[e] > g[f] + 1
               /\ g' = [g EXCEPT ![e] = g[f] + 1]
               /\ UNCHANGED <<adj, g0>>
Next == \E e, f \in El : Lower(e, f)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Valid(a, c, h) == /\ \A e \in El : h[e] <= c[e]
                  /\ \A e \in El : \A f \in Nbrs(a, e) : h[e] <= h[f] + 1
\* local characterisation, used on recorded results of the real code
Tight(a, c, h) == \A e \in El : h[e] = c[e] \/ \E f \in Nbrs(a, e) : h[e] = h[f] + 1

Done == ~ ENABLED Next
Confluent == Done => /\ Valid(adj, g0, g)
                     /\ \A h \in [El -> Gr] : Valid(adj, g0, h) => \A e \in El : h[e] <= g[e]
\* Valid and Tight together single out exactly this assignment
TightIsGreatest == Done => \A h \in [El -> Gr] : (Valid(adj, g0, h) /\ Tight(adj, g0, h)) => h = g
DoneIsTight == Done => Tight(adj, g0, g)
Terminates == <>Done
=============================================================================
