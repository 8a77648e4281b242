------------------------------- MODULE MC_Num -------------------------------
(***************************************************************************)
(* The arithmetic the far windows rest on: MulMod(i, n, b) steps by n       *)
(* modulo b when i steps by one, at every i near a power of two up to 2^30  *)
(* (and near the switch between its two ways of computing); the cosine      *)
(* between table entries stays on the circle and is monotone by quarters;   *)
(* rounding is to nearest.                                                  *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Bs, Ns
VARIABLES b, n, e, k
vars == <<b, n, e, k>>
RECURSIVE P2(_)
P2(j) == IF j = 0 THEN 1 ELSE 2 * P2(j - 1)
Init == b \in Bs /\ n \in Ns /\ e \in 0..29 /\ k = -5
Next == k < 5 /\ k' = k + 1 /\ UNCHANGED <<b, n, e>>
Spec == Init /\ [][Next]_vars
I == Max2(0, P2(e) + k)
Steps == MulMod(I + 1, (n % b), b) = (MulMod(I, (n % b), b) + (n % b)) % b
Base == MulMod(0, (n % b), b) = 0 /\ MulMod(1, (n % b), b) = (n % b) % b
\* doubling the index doubles the phase
Doubles == e < 29 => MulMod(2 * I, (n % b), b) = (2 * MulMod(I, (n % b), b)) % b
Circle == LET a == MulMod(I, (n % b), b)  c == Tik(Cos(a, b))  s == Tik(Sin(a, b)) IN Abs(c * c + s * s - 100000000) <= 40000
Mirror == LET a == MulMod(I, (n % b), b) IN Near(Cos(a, b), Cos((b - a) % b, b), 1) /\ Near(Sin(a, b), -Sin((b - a) % b, b), 1)
Rounds == LET x == MulMod(I, (n % b), b) - b \div 2 IN \A d \in {1, 2, 7, 1000} : Abs(2 * (RDiv(x, d) * d - x)) <= d
=============================================================================
