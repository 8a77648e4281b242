-------------------------------- MODULE Hop ---------------------------------
(***************************************************************************)
(* The hop sequence as a machine.  `rem` is the set of channels not yet    *)
(* visited in the current epoch; one hop takes any channel of rem, and an  *)
(* exhausted epoch is followed by a fresh one.  Which channel is taken is  *)
(* left open (the library draws it from a seeded generator); everything    *)
(* else about the sequence is determined.                                  *)
(* A band g has nf channels, channel k at (g.f0 + k*g.step)/g.fd Hz.       *)
(***************************************************************************)
EXTENDS Blocks

Channels(g) == 0..g.nf - 1
HopTake(g, rem, k) == IF rem = {k} THEN Channels(g) ELSE rem \ {k}
ChanFn(g, k) == g.f0 + k * g.step
\* channel k as a carrier of its own
ChanG(g, k) == [fs |-> g.fs, sr |-> g.sr, fn |-> ChanFn(g, k), fd |-> g.fd, key |-> <<1>>]
\* the chirp sent on channel k for a bit
ChanChirp(g, k, up) ==
  LET lo == 2 * ChanFn(g, k) - g.step  hi == 2 * ChanFn(g, k) + g.step IN
  [fs |-> g.fs, rn |-> g.sr, rd |-> 1, fd |-> 2 * g.fd,
   f0 |-> IF up THEN lo ELSE hi, f1 |-> IF up THEN hi ELSE lo]

\* ---- one symbol on channel k; out(i) is sample number i of the whole signal
SymLen(kind, g) == CASE kind = "table" -> 1
                     [] kind = "css" -> g.fs \div g.sr
                     [] OTHER -> Sps(g)
SymMatch(kind, g, msg(_), base(_), out(_), s, k) ==
  LET n == SymLen(kind, g)  c == ChanG(g, k) IN
  CASE kind = "table" -> Near(out(s), RDiv(ChanFn(g, k) * 100, g.fd), 2)
    [] kind = "fhbpsk" -> \A j \in 0..n - 1 : Near(out(s * n + j), Nrz(msg(s)) * CarC(c, j), WaveTol)
    [] kind = "css" -> LET ch == ChanChirp(g, k, msg(s) = 1) IN
                       \A j \in 0..n - 1 : Near(out(s * n + j), ChirpSample(ch, j), WaveTol)
    [] kind = "fod" -> \A j \in 0..n - 1 : LET i == s * n + j  y == base(s) IN
          Near(out(i), (Tik(y[1]) * Tik(CarC(c, i)) + Tik(y[2]) * Tik(CarS(c, i))) \div 100, 400)

\* ---- the receiver's decision for block s of an arbitrary signal x(i) (tik), on channel k
HopCorr(g, x(_), s, k) ==
  LET n == Sps(g)  c == ChanG(g, k) IN
  SumN(n, LAMBDA j : MulT(x(s * n + j), Tik(CarC(c, j))))

\* every channel separates the two values of a bit
HopSeparable(g) == \A k \in Channels(g) : BpskSym(ChanG(g, k), 0, 0)
=============================================================================
