------------------------------ MODULE MC_Ssca ------------------------------
(***************************************************************************)
(* Filling the map entry by entry, for every pair of powers of two          *)
(* np < n: every cell lies inside the map and no two entries share a cell.  *)
(***************************************************************************)
EXTENDS Ssca, TLC
CONSTANT MaxN
VARIABLES n, np, q, used
vars == <<n, np, q, used>>
P2 == {p \in 1..MaxN : \E e \in 0..10 : p = 2 ^ e}
Init == n \in P2 /\ np \in P2 /\ np < n /\ q = 0 /\ used = {}
Row == {Cell(n, np, q, c) : c \in 0..np - 1}
Fill == q < n /\ q' = q + 1 /\ used' = used \cup Row /\ UNCHANGED <<n, np>>
Next == Fill
Spec == Init /\ [][Next]_vars
Inside == \A u \in used : u[1] \in 0..np /\ u[2] \in 0..2 * n
Injective == Cardinality(used) = q * np
=============================================================================
