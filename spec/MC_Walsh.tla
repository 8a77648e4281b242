------------------------------ MODULE MC_Walsh ------------------------------
(***************************************************************************)
(* The code family grows by doubling: from the order-n matrix H the next    *)
(* one is [H H; H -H].  Checked in every state: the closed form used by     *)
(* the trace specification is that matrix; rows are pairwise orthogonal;    *)
(* every row but the first is balanced; consecutive indices enumerate the   *)
(* n-1 codes without repetition and then wrap.                              *)
(***************************************************************************)
EXTENDS Walsh, TLC
CONSTANT MaxOrder
VARIABLES n, H
vars == <<n, H>>
Init == n = 1 /\ H = [p \in {<<0, 0>>} |-> 1]
Double == /\ 2 * n <= MaxOrder
          /\ n' = 2 * n
          /\ H' = [p \in (0..2 * n - 1) \X (0..2 * n - 1) |->
                     LET b == H[<<p[1] % n, p[2] % n>>]
                     IN IF p[1] >= n /\ p[2] >= n THEN 1 - b ELSE b]
Next == Double
Spec == Init /\ [][Next]_vars
RECURSIVE Agree(_, _, _)
Agree(a, b, k) == IF k = 0 THEN 0 ELSE (IF H[<<a, k - 1>>] = H[<<b, k - 1>>] THEN 1 ELSE 0) + Agree(a, b, k - 1)
RECURSIVE Ones(_, _)
Ones(a, k) == IF k = 0 THEN 0 ELSE H[<<a, k - 1>>] + Ones(a, k - 1)
Closed == \A p \in DOMAIN H : H[p] = Entry(p[1], p[2])
Orthogonal == \A a, b \in 0..n - 1 : a < b => 2 * Agree(a, b, n) = n
Balanced == \A a \in 1..n - 1 : 2 * Ones(a, n) = n
Enumerates == n > 1 => /\ {RowOf(n, i) : i \in 0..n - 2} = 1..n - 1
                       /\ \A i \in 0..3 * n : RowOf(n, i + n - 1) = RowOf(n, i) /\ RowOf(n, i) # 0
Order == IsPow2(n)
=============================================================================
