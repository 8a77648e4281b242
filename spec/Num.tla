-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Fixed-point arithmetic inside TLC's 32-bit integers.                    *)
(* Reals are integers in units of 10^-6 ("micro") or 10^-4 ("tik").        *)
(* Phases are exact rationals: a/b of a turn, 0 <= a < b <= 2^19.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, CosTable

NonFinite == 2000000001          \* how the driver logs NaN and infinities

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
CeilDiv(a, b) == (a + b - 1) \div b
Near(x, y, tol) == /\ x # NonFinite /\ x - y <= tol /\ y - x <= tol

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* (i * n) % b without overflow, for 0 <= i < 2^30, 0 <= n < 2^19, 0 < b <= 2^19
MulMod(i, n, b) ==
  IF i < 4096 THEN (i * n) % b
  ELSE LET q  == i \div 1024
           h2 == ((q \div 1024) * n) % b
           h1 == (h2 * 1024 + (q % 1024) * n) % b
       IN  (h1 * 1024 + (i % 1024) * n) % b

\* round to nearest, halves up; d > 0
RDiv(x, d) == (2 * x + d) \div (2 * d)

\* micro cosine and sine of a/b of a turn, 0 <= a < b <= 2^19
TabAt(k, f, b) ==
  IF f = 0 THEN CosTab[k + 1]
  ELSE CosTab[k + 1] + ((CosTab[k + 2] - CosTab[k + 1]) * f) \div b
Cos(a, b) == TabAt((a * 4096) \div b, (a * 4096) % b, b)
Sin(a, b) == TabAt(((a * 4096) \div b + 3072) % 4096, (a * 4096) % b, b)

Tik(x) == RDiv(x, 100)           \* micro -> tik
MulT(x, y) == (x * y) \div 10000 \* tik * tik -> tik, |x*y| < 2^31

Sum(s) == LET RECURSIVE go(_, _)
              go(i, acc) == IF i > Len(s) THEN acc ELSE go(i + 1, acc + s[i])
          IN go(1, 0)

\* The table is the cosine: unit circle, quarter symmetry, and the addition
\* theorem for one step of the table (in tik, to stay within 32 bits).
ASSUME Len(CosTab) = 4097
ASSUME CosTab[1] = 1000000 /\ CosTab[1025] = 0 /\ CosTab[2049] = -1000000 /\ CosTab[4097] = 1000000
ASSUME \A k \in 0..1024 : CosTab[k+1] = -CosTab[2048-k+1] /\ CosTab[k+1] = CosTab[4096-k+1]
ASSUME \A k \in 0..1024 :
   LET c == Tik(CosTab[k+1])  s == Tik(CosTab[1024-k+1]) IN Abs(c*c + s*s - 100000000) <= 15000
ASSUME \A k \in 0..1022 : CosTab[k+1] > CosTab[k+2]
=============================================================================
