-------------------------------- MODULE Ssca --------------------------------
(***************************************************************************)
(* The strip spectral correlation analyser (values in tik = 10^-4).         *)
(*   strip k, instant i:  X(i,k) conj(s[i + np/2]) w_n(i) e^{-2 pi j k i/np}*)
(*   with X the np-point transform of s[i..i+np-1] under a Hamming window   *)
(*   and k running over the centred frequencies; each strip is transformed  *)
(*   over i = 0..n-1.  Both axes run from the lowest frequency upwards.     *)
(***************************************************************************)
EXTENDS Num

Ham(i, L) == 540000 - (46 * Cos(i, L)) \div 100           \* micro
\* the symmetric form of the window (sym) ends on the value it starts with
Win(sym, i, L) == IF ~sym THEN Ham(i, L) ELSE IF L = 1 THEN 1000000 ELSE Ham(i, L - 1)
SumSeq(n, f(_)) == LET RECURSIVE go(_, _)
                       go(i, acc) == IF i = n THEN acc ELSE go(i + 1, acc + f(i)) IN go(0, 0)
CTik(a, b) == Tik(Cos(a % b, b))
STik(a, b) == Tik(Sin(a % b, b))
\* centred position c (0..L-1) holds transform bin
BinOf(c, L) == (c + CeilDiv(L, 2)) % L

\* one window of np samples (tik), transformed: <<re, im>> of bin b
Bin(sym, s, i, np, b) ==
  LET w(j) == MulT(Tik(Win(sym, j, np)), s[i + j + 1]) IN
  <<SumSeq(np, LAMBDA j : MulT(w(j), CTik(j * b, np))), -SumSeq(np, LAMBDA j : MulT(w(j), STik(j * b, np)))>>
\* strip value at instant i, centred frequency c
Strip(sym, s, n, np, i, c) ==
  LET z == Bin(sym, s, i, np, BinOf(c, np))
      \* 2 np-ths of a turn, to be subtracted; the symmetric form counts strips in whole steps
      ph == ((2 * c - (IF sym THEN 2 * CeilDiv(np, 2) ELSE np)) * i) % (2 * np)
      a == IF ph < 0 THEN ph + 2 * np ELSE ph
      re == MulT(z[1], CTik(a, 2 * np)) + MulT(z[2], STik(a, 2 * np))
      im == MulT(z[2], CTik(a, 2 * np)) - MulT(z[1], STik(a, 2 * np))
      g == MulT(s[np \div 2 + i + 1], Tik(Win(sym, i, n)))
  IN <<MulT(re, g), MulT(im, g)>>
Strips(sym, s, n, np) == [p \in (0..n - 1) \X (0..np - 1) |-> Strip(sym, s, n, np, p[1], p[2])]
\* entry (q, c) of the n by np table
SscaEntry(X, n, np, q, c) ==
  LET b == BinOf(q, n) IN
  <<SumSeq(n, LAMBDA i : MulT(X[<<i, c>>][1], CTik(i * b, n)) + MulT(X[<<i, c>>][2], STik(i * b, n))),
    SumSeq(n, LAMBDA i : MulT(X[<<i, c>>][2], CTik(i * b, n)) - MulT(X[<<i, c>>][1], STik(i * b, n)))>>

\* where entry (q, c) of the table goes in the (np + 1) by (2n + 1) map: frequency
\* f = c/(2 np) - q/(2n) in steps of 1/np from -1/2, cycle frequency c/np + q/n in steps of 1/n
Cell(n, np, q, c) == <<(c * n - q * np + np * n) \div (2 * n), (c * n) \div np + q>>
=============================================================================
