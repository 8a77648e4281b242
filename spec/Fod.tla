-------------------------------- MODULE Fod ---------------------------------
(***************************************************************************)
(* FH-OFDM-DCSK frames.  Frame f carries bits 7f .. 7f+6 of the message on *)
(* 8 subcarriers: one holds the reference value c0, the others the values  *)
(* c1 .. c7 signed by the bits (0 where the message has ended); c0..c7 are *)
(* values 8f .. 8f+7 of the chaos orbit.  Which subcarrier holds which     *)
(* value is a permutation drawn per frame and left open here; transmitter  *)
(* and receiver must agree on it.                                          *)
(* Transmitted values are in units of 10^-5, received frames tik.           *)
(***************************************************************************)
EXTENDS Bits
NSub == 8
Cp == 2
FrameLen == NSub + Cp
\* spectrum line i (0..7, from the lowest frequency) of the 8 samples y(0..7)
Line(y(_), i) ==
  LET k == (i + NSub \div 2) % NSub
      RECURSIVE go(_, _, _)
      go(t, re, im) ==
        IF t = NSub THEN <<re, im>>
        ELSE LET c == Tik(Cos((k * t) % NSub, NSub))  s == Tik(Sin((k * t) % NSub, NSub))  v == y(t) IN
             go(t + 1, re + RDiv(v[1] * c, 10000) + RDiv(v[2] * s, 10000),
                       im + RDiv(v[2] * c, 10000) - RDiv(v[1] * s, 10000))
  IN go(0, 0, 0)
\* value j (0..7) of frame f before the permutation; -1 bits: none
FrameVal(orbit(_), msg(_), n, f, j) ==
  LET c == orbit(NSub * f + j) IN
  IF j = 0 THEN c
  ELSE LET b == 7 * f + j - 1 IN IF b < n THEN Nrz(msg(b)) * c ELSE 0
Frames(n) == {CeilDiv(n, 7), n \div 7 + 1}
\* receiver: metric of bit j (1..7) when line p0 is the reference and line pj holds value j,
\* and how far off it can be; z(i) = line i (tik * 8)
RxMetric(a, b) ==
  LET a1 == a[1] \div 16  a2 == a[2] \div 16  b1 == b[1] \div 16  b2 == b[2] \div 16
  IN <<a1 * b1 + a2 * b2, 3 * (Abs(a1) + Abs(a2) + Abs(b1) + Abs(b2)) + 20>>
=============================================================================
