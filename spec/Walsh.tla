-------------------------------- MODULE Walsh --------------------------------
(* The Sylvester family in closed form: entry (row, col) of every order is    *)
(* TRUE iff row and col have an even number of common one bits.               *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Parity(_, _)
Parity(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE ((a % 2) * (b % 2) + Parity(a \div 2, b \div 2)) % 2
Entry(row, col) == 1 - Parity(row, col)
RECURSIVE IsPow2(_)
IsPow2(n) == IF n <= 1 THEN n = 1 ELSE n % 2 = 0 /\ IsPow2(n \div 2)
\* codes are asked for by any index; row 0 (the constant code) is never given out
RowOf(n, index) == (index % (n - 1)) + 1
=============================================================================
