------------------------------- MODULE MC_Mux -------------------------------
(***************************************************************************)
(* Users on one channel: every set of at most MaxU codes of the family of   *)
(* order n, every bit and every gain of each.  Despreading with a user's    *)
(* code yields that user's bit and strength, with a code nobody uses        *)
(* nothing - and with the first code (which the family leaves out) the      *)
(* same.  One symbol is one state, chip by chip.                            *)
(***************************************************************************)
EXTENDS Walsh
CONSTANTS Orders, MaxU, Gains
VARIABLES n, users, bit, gain, c, acc
vars == <<n, users, bit, gain, c, acc>>
Sg(row, k) == IF Entry(row, k) = 1 THEN 1 ELSE -1
Bits == {-1, 1}
Init == /\ n \in Orders /\ users \in {u \in SUBSET (1..n - 1) : Cardinality(u) <= MaxU}
        /\ bit \in [users -> Bits] /\ gain \in [users -> Gains]
        /\ c = 0 /\ acc = [r \in 0..n - 1 |-> 0]
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET u == CHOOSE x \in S : TRUE IN gain[u] * bit[u] * Sg(u, c) + Sum(S \ {u})
Chip == /\ c < n /\ c' = c + 1
        /\ LET air == Sum(users) IN acc' = [r \in 0..n - 1 |-> acc[r] + air * Sg(r, c)]
        /\ UNCHANGED <<n, users, bit, gain>>
Next == Chip
Spec == Init /\ [][Next]_vars
Separate == c = n => \A r \in 0..n - 1 : acc[r] = IF r \in users THEN n * gain[r] * bit[r] ELSE 0
\* what reaches the other receivers before the symbol is over is bounded by what was sent
Total == LET RECURSIVE t(_)
             t(S) == IF S = {} THEN 0 ELSE LET u == CHOOSE x \in S : TRUE IN gain[u] + t(S \ {u}) IN t(users)
Bounded == \A r \in 0..n - 1 : acc[r] <= c * Total /\ -acc[r] <= c * Total
=============================================================================
