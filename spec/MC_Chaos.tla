------------------------------ MODULE MC_Chaos ------------------------------
(***************************************************************************)
(* The maps on a grid, with the rounding of real arithmetic left open: a   *)
(* step may end on either neighbour of the exact image (never outside the  *)
(* exact range).  Checked: the trapping intervals.                         *)
(* G is the number of grid steps of the unit interval.                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS G, MuDen
VARIABLES map, mu, x, age
vars == <<map, mu, x, age>>
Ab(v) == IF v < 0 THEN -v ELSE v
\* exact image as a fraction num/den
Num(m, u, v) == IF m = "logistic" THEN u * v * (G - v) ELSE 3 * v * v * v - 2 * v * G * G
Den(m) == IF m = "logistic" THEN MuDen * G ELSE G * G
Images(m, u, v) == LET n == Num(m, u, v)  d == Den(m) IN
                   IF n % d = 0 THEN {n \div d} ELSE {n \div d, n \div d + 1}
Init == /\ map \in {"logistic", "chebyshev"} /\ age = 0
        /\ mu \in (IF map = "logistic" THEN 0..4 * MuDen ELSE {0})
        /\ x \in (IF map = "logistic" THEN 0..G ELSE -G..G)
Next == x' \in Images(map, mu, x) /\ age' = (IF age < 3 THEN age + 1 ELSE 3) /\ UNCHANGED <<map, mu>>
Spec == Init /\ [][Next]_vars
Bounded == IF map = "logistic" THEN 0 <= x /\ x <= G ELSE -G <= x /\ x <= G
=============================================================================
