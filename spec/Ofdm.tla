-------------------------------- MODULE Ofdm --------------------------------
(***************************************************************************)
(* OFDM with N subcarriers of which P are not data (the middle one, DC,    *)
(* and P-1 at the edges), cyclic prefix of N/4 samples.                    *)
(***************************************************************************)
EXTENDS Psk
Mid(N) == N \div 2
Back(P) == (P - 1) \div 2
Front(P) == (P - 1) - Back(P)
DataCount(N, P) == N - P
CP(N) == N \div 4
Blk(N) == N + CP(N)
\* subcarrier of data symbol j (0 <= j < N-P), counted from the lowest frequency
Carrier(N, P, j) == LET c == Front(P) + j IN IF c < Mid(N) THEN c ELSE c + 1
\* its (signed) frequency number modulo N
FreqNo(N, P, j) == (Carrier(N, P, j) + N - Mid(N)) % N

C5(a, b) == RDiv(Cos(a, b), 10)
S5(a, b) == RDiv(Sin(a, b), 10)
C4(a, b) == Tik(Cos(a, b))
S4(a, b) == Tik(Sin(a, b))

\* time sample t (0..N-1) of the block carrying X(0..D-1), X in units of 10^-3; result micro <<re, im>>
OfdmTime(N, P, D, X(_), t) ==
  LET RECURSIVE go(_, _, _)
      go(j, re, im) ==
        IF j = D THEN <<RDiv(re * 10, N), RDiv(im * 10, N)>>
        ELSE LET a == (FreqNo(N, P, j) * t) % N
                 c == C5(a, N)  s == S5(a, N)  x == X(j)
             IN go(j + 1, re + RDiv(x[1] * c, 1000) - RDiv(x[2] * s, 1000),
                          im + RDiv(x[1] * s, 1000) + RDiv(x[2] * c, 1000))
  IN go(0, 0, 0)
\* sample i of a block of N + CP samples
OfdmSample(N, P, D, X(_), i) == OfdmTime(N, P, D, X, (i + N - CP(N)) % N)

\* data symbol j recovered from the N samples y(0..N-1) after the prefix, y in tik; tik
OfdmBin(N, P, y(_), j) ==
  LET RECURSIVE go(_, _, _)
      go(t, re, im) ==
        IF t = N THEN <<re, im>>
        ELSE LET a == (FreqNo(N, P, j) * t) % N
                 c == C4(a, N)  s == S4(a, N)  v == y(t)
             IN go(t + 1, re + RDiv(v[1] * c, 10000) + RDiv(v[2] * s, 10000),
                          im + RDiv(v[2] * c, 10000) - RDiv(v[1] * s, 10000))
  IN go(0, 0, 0)
=============================================================================
