------------------------------- MODULE BigFix -------------------------------
(***************************************************************************)
(* Numbers with 24 decimals, as <<whole, d1, ..., d6>> in base 10^4: wide  *)
(* enough to follow a chaotic orbit for as long as double precision can.   *)
(* Nonnegative; results are rounded towards zero.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

BF == 10000
BN == 7
\* carry: digits (any nonnegative size) to proper digits; the first one keeps the rest
BCarry(r) ==
  LET RECURSIVE go(_, _, _)
      go(i, c, acc) == IF i = 1 THEN <<r[1] + c>> \o acc
                       ELSE go(i - 1, (r[i] + c) \div BF, <<(r[i] + c) % BF>> \o acc)
  IN go(Len(r), 0, <<>>)
\* v millionths
BMicro(v) == <<v \div 1000000, (v \div 100) % BF, (v % 100) * 100, 0, 0, 0, 0>>
\* to millionths, halves up
BToMicro(a) == a[1] * 1000000 + a[2] * 100 + (a[3] + 50) \div 100
BMul(a, b) ==
  LET raw == <<>> \o [k \in 1..2 * BN - 1 |->
        LET lo == IF k > BN THEN k - BN + 1 ELSE 1
            hi == IF k > BN THEN BN ELSE k
            RECURSIVE s(_, _)
            s(i, acc) == IF i > hi THEN acc ELSE s(i + 1, acc + a[i] * b[k + 1 - i])
        IN s(lo, 0)]
  IN SubSeq(BCarry(raw), 1, BN)
\* times and divided by a small number (below 10^5)
BTimes(a, m) == BCarry(<<>> \o [i \in 1..BN |-> a[i] * m])
BDiv(a, m) ==
  LET RECURSIVE go(_, _, _)
      go(i, rem, acc) == IF i > BN THEN acc
                         ELSE LET v == rem * BF + a[i] IN go(i + 1, v % m, Append(acc, v \div m))
  IN go(1, 0, <<>>)
RECURSIVE BLeqAt(_, _, _)
BLeqAt(a, b, i) == IF i > BN THEN TRUE ELSE IF a[i] = b[i] THEN BLeqAt(a, b, i + 1) ELSE a[i] < b[i]
BLeq(a, b) == BLeqAt(a, b, 1)
\* a - b for b <= a
BSub(a, b) ==
  LET RECURSIVE go(_, _, _)
      go(i, bor, acc) == IF i = 0 THEN acc
                         ELSE LET v == a[i] - b[i] - bor IN
                              go(i - 1, IF i > 1 /\ v < 0 THEN 1 ELSE 0, <<IF i > 1 /\ v < 0 THEN v + BF ELSE v>> \o acc)
  IN go(BN, 0, <<>>)
BAbsDiff(a, b) == IF BLeq(b, a) THEN BSub(a, b) ELSE BSub(b, a)

ASSUME BMul(BMicro(1500000), BMicro(1500000)) = BMicro(2250000)
ASSUME BMul(BMicro(999999), BMicro(999999)) = <<0, 9999, 9800, 1, 0, 0, 0>>
ASSUME BSub(BMicro(1000000), BMicro(1)) = BMicro(999999)
ASSUME BDiv(BTimes(BMicro(123456), 39), 10) = <<0, 4814, 7840, 0, 0, 0, 0>>
ASSUME BToMicro(BMicro(3141593)) = 3141593
=============================================================================
