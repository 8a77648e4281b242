---------------------------- MODULE MC_ChaosKey -----------------------------
(***************************************************************************)
(* The two chaos links over a grid of G steps: the modem generator with    *)
(* mu = 3.9 started at 0.1 / 0.15; rounding left open.  Differential: a     *)
(* pair (v, +-v), scaled by either sign, each sample disturbed by less     *)
(* than the smallest orbit value, decides its bit.  Shift keying: without  *)
(* disturbance the decision is right whenever the two orbits differ.       *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS G
VARIABLES a, b
vars == <<a, b>>
Ab(v) == IF v < 0 THEN -v ELSE v
Images(v) == LET n == 39 * v * (G - v)  d == 10 * G IN IF n % d = 0 THEN {n \div d} ELSE {n \div d, n \div d + 1}
Top == (39 * G + 39) \div 40             \* F(1/2)
Low == (39 * Top * (G - Top)) \div (10 * G)   \* F(F(1/2)) on the grid
Dist == {-(Low - 1), -1, 0, 1, Low - 1}
Init == a \in Images(G \div 10) /\ b \in Images((15 * G) \div 100)
Next == a' \in Images(a) /\ b' \in Images(b)
Spec == Init /\ [][Next]_vars
DcskDecides ==
  \A bit \in {0, 1}, gain \in {-1, 1}, d1, d2 \in Dist :
     LET info == IF bit = 1 THEN a ELSE -a IN ((gain * a + d1) * (gain * info + d2) > 0) = (bit = 1)
CskDecides == a # b => \A bit \in {0, 1} : LET v == IF bit = 1 THEN a ELSE b IN (Ab(v - a) < Ab(v - b)) = (bit = 1)
Range == a >= Low /\ a <= Top /\ b >= Low /\ b <= Top
=============================================================================
