-------------------------------- MODULE Psk ---------------------------------
(***************************************************************************)
(* Carriers, coherent PSK and direct-sequence spreading.                   *)
(* A modem configuration g has fields fs (sample rate), sr (symbol rate),  *)
(* fn/fd (carrier frequency as a rational) and key (chips; <<1>> if none). *)
(***************************************************************************)
EXTENDS Bits

Sps(g) == g.fs \div g.sr
PhB(g) == g.fs * g.fd
Ph(g, i) == MulMod(i, g.fn, PhB(g))            \* phase of sample i, in PhB-ths of a turn
CarC(g, i) == Cos(Ph(g, i), PhB(g))
CarS(g, i) == Sin(Ph(g, i), PhB(g))
Spc(g) == Sps(g) \div Len(g.key)               \* samples per chip
ChipAt(g, i) == Nrz(g.key[((i \div Spc(g)) % Len(g.key)) + 1])

\* ---- transmitted samples (micro), msg(k) is bit number k
BpskSample(g, msg(_), i) == ChipAt(g, i) * Nrz(msg(i \div Sps(g))) * CarC(g, i)
QpskSample(g, msg(_), i) ==
  LET s == i \div Sps(g)
  IN ChipAt(g, i) * (Nrz(msg(2 * s)) * CarC(g, i) - Nrz(msg(2 * s + 1)) * CarS(g, i))

\* ---- correlation of one received symbol (tik), x(j) is sample number j in tik
CorrC(g, x(_), s) ==
  LET n == Sps(g)
      RECURSIVE go(_, _)
      go(j, acc) == IF j = (s + 1) * n THEN acc
                    ELSE go(j + 1, acc + ChipAt(g, j) * MulT(x(j), Tik(CarC(g, j))))
  IN go(s * n, 0)
CorrS(g, x(_), s) ==
  LET n == Sps(g)
      RECURSIVE go(_, _)
      go(j, acc) == IF j = (s + 1) * n THEN acc
                    ELSE go(j + 1, acc - ChipAt(g, j) * MulT(x(j), Tik(CarS(g, j))))
  IN go(s * n, 0)
\* what the fixed-point sums above can be off by, amp = largest |x| in tik
CorrTol(g, amp) == Sps(g) * (2 + amp \div 5000)
\* a decision agrees with a metric unless the metric is within tol of the threshold
Decides(b, metric, tol) ==
  IF metric > tol THEN b = 1 ELSE IF metric < -tol THEN b = 0 ELSE b \in {0, 1}

\* ---- which configurations the receiver separates (exact statements about the carrier)
\* |sin(n w) / sin(w)| governs how far the sums of cos^2, sin^2 over a symbol of n samples
\* are from n/2, and how large the sum of sin*cos gets.
SinW(g)  == Abs(Sin(Ph(g, 1), PhB(g)))
SinNW(g) == Abs(Sin(Ph(g, Sps(g)), PhB(g)))
Bpskable(g) == \/ SinW(g) = 0 /\ (2 * Ph(g, 1)) % PhB(g) = 0
               \/ (Sps(g) * Tik(SinW(g))) * 10 > Tik(SinNW(g)) * 11 + 100
Qpskable(g) == (Sps(g) * Tik(SinW(g))) * 10 > Tik(SinNW(g)) * 15 + 100
\* whole half carrier cycles in n samples: then the chips of different users stay orthogonal
HalfCycles(g, n) == (2 * Ph(g, n)) % PhB(g) = 0
=============================================================================
