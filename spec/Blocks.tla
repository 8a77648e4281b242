------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* What every processing block of the library means, as a function of its  *)
(* input stream: for a run R (a record logged by the driver, see           *)
(* KomTrace) the operators below say how many outputs there are, what each *)
(* output must be, and how many inputs a given number of outputs needs.    *)
(*                                                                         *)
(*   R.spec   name of the block or chain                                   *)
(*   R.g      configuration record                                         *)
(*   R.in     input elements,  R.cyc  TRUE if repeated endlessly           *)
(*                                                                         *)
(* Bits are 0/1; transmitted samples are micro-units, received samples     *)
(* (inputs of receivers) tik = 10^-4 units.                                *)
(***************************************************************************)
EXTENDS Ofdm, RS, TLC

INF == 1000000000
NIn(R) == IF R.cyc THEN INF ELSE Len(R.in)
In(R, i) == R.in[(i % Len(R.in)) + 1]
FDiv(a, b) == IF a >= INF THEN INF ELSE a \div b
CDiv(a, b) == IF a >= INF THEN INF ELSE CeilDiv(a, b)
Times(a, b) == IF a >= INF THEN (IF b = 0 THEN 0 ELSE INF) ELSE a * b
Plus(a, b) == IF a >= INF THEN INF ELSE a + b
FoldN(n, z, op(_, _)) == LET RECURSIVE go(_, _)
                             go(i, acc) == IF i = n THEN acc ELSE go(i + 1, op(acc, i))
                         IN go(0, z)
SumN(n, f(_)) == FoldN(n, 0, LAMBDA acc, i : acc + f(i))

------------------------------------------------------------------------------
\* Which configurations a coherent link separates, symbol by symbol (tik sums)
Ecc(g, s) == SumN(Sps(g), LAMBDA j : LET c == Tik(CarC(g, s * Sps(g) + j)) IN MulT(c, c))
Ess(g, s) == SumN(Sps(g), LAMBDA j : LET c == Tik(CarS(g, s * Sps(g) + j)) IN MulT(c, c))
Esc(g, s) == SumN(Sps(g), LAMBDA j : MulT(Tik(CarC(g, s * Sps(g) + j)), Tik(CarS(g, s * Sps(g) + j))))
AbsC(g, s) == SumN(Sps(g), LAMBDA j : Abs(Tik(CarC(g, s * Sps(g) + j))))
AbsS(g, s) == SumN(Sps(g), LAMBDA j : Abs(Tik(CarS(g, s * Sps(g) + j))))
\* amp: bound (tik) on the disturbance of any sample of a unit-amplitude signal
Disturb(amp, x) == IF amp = 0 THEN 0 ELSE ((x \div 100) * amp) \div 100 + amp
BpskSym(g, s, amp) == Ecc(g, s) > Disturb(amp, AbsC(g, s)) + 4 * Sps(g)
QpskSym(g, s, amp) ==
  LET x == Abs(Esc(g, s)) IN
  /\ Ecc(g, s) > x + Disturb(amp, AbsC(g, s)) + 8 * Sps(g)
  /\ Ess(g, s) > x + Disturb(amp, AbsS(g, s)) + 8 * Sps(g)
\* phases of symbol starts repeat: it is enough to look at one period of them
PhasePeriod(g, n) == IF n = 0 THEN 0 ELSE
  LET B == PhB(g)  st == Ph(g, Sps(g)) IN
  IF st = 0 THEN 1 ELSE Min2(n, B \div Gcd(st, B))
BpskOK(g, n, amp) == \A s \in 0..PhasePeriod(g, n) - 1 : BpskSym(g, s, amp)
QpskOK(g, n, amp) == \A s \in 0..PhasePeriod(g, n) - 1 : QpskSym(g, s, amp)

LinkKinds == {"bb_bpsk", "bb_qpsk", "bpsk", "qpsk"}
BitsPerSym(kind) == IF kind \in {"qpsk", "bb_qpsk"} THEN 2 ELSE 1
LinkOK(g, kind, nbits, amp) ==
  CASE kind = "bb_bpsk" -> amp < 10000
    [] kind = "bb_qpsk" -> amp < 14142
    [] kind = "bpsk" -> BpskOK(g, nbits, amp)
    [] kind = "qpsk" -> QpskOK(g, nbits \div 2, amp)

------------------------------------------------------------------------------
\* Walsh codes and users
Dot(a, b) == SumN(Len(a), LAMBDA j : Nrz(a[j + 1]) * Nrz(b[j + 1]))
MuxOK(R) ==
  LET g == R.g IN
  /\ HalfCycles(g, Spc(g))
  /\ BpskOK(g, 4, 0) /\ (R.kind = "qpsk" => QpskOK(g, 4, 0))
  /\ \A k \in 1..Len(R.others) : Len(R.others[k]) = Len(g.key) /\ Dot(R.others[k], g.key) = 0

------------------------------------------------------------------------------
\* OFDM
QpskPoint(R, j) ==  \* baseband QPSK symbol number j in units of 10^-3
  LET b(k) == IF k < NIn(R) THEN Nrz(In(R, k)) ELSE 0
  IN IF 2 * j + 1 < NIn(R) THEN <<1414 * b(2 * j), 1414 * b(2 * j + 1)>> ELSE <<0, 0>>
SymIn(R, j) == IF j < NIn(R) THEN In(R, j) ELSE <<0, 0>>
OfdmX(R, blk, j) == SymIn(R, blk * DataCount(R.g.sub, R.g.pil) + j)
OfdmQ(R, blk, j) == QpskPoint(R, blk * DataCount(R.g.sub, R.g.pil) + j)
\* baseband samples of the whole message, for the passband transmitter
OfdmBase(R, k) ==
  LET N == R.g.sub P == R.g.pil  blk == k \div Blk(N)
  IN OfdmSample(N, P, DataCount(N, P), LAMBDA j : OfdmQ(R, blk, j), k % Blk(N))

\* passband receiver: the baseband value held during sample period k (tik)
Mixed(R, k) ==
  LET g == R.g  n == Sps(g) IN
  <<SumN(n, LAMBDA j : MulT(In(R, k * n + j), Tik(CarC(g, k * n + j)))),
    -SumN(n, LAMBDA j : MulT(In(R, k * n + j), Tik(CarS(g, k * n + j))))>>

------------------------------------------------------------------------------
\* FSK, FM, chirps (micro)
ToneAt(fn, B, i) == Cos(MulMod(i, fn % B, B), B)
FskSample(R, i) ==
  LET g == R.g  hi == In(R, i \div Sps(g)) = 1
      fn == IF hi THEN g.hin ELSE g.lon  fd == IF hi THEN g.hid ELSE g.lod
  IN ToneAt(fn, g.fs * fd, i)
\* tones of the FM-FSK modem: carrier * (1 +- 1/40)
FmTone(g, up) == [g EXCEPT !.fn = g.fn * (IF up THEN 41 ELSE 39), !.fd = g.fd * 40]
\* energy at the upper tone minus energy at the lower one over block number s (scaled down
\* to stay within 32 bits), and how far off that can be
\* sum of the first m elements of a repeated input
CycSum(R, m, f(_)) == LET L == Len(R.in) IN (m \div L) * SumN(L, f) + SumN(m % L, f)
ToneSum(R, t, s, q) == \* q TRUE: quadrature
  LET n == Sps(R.g) IN
  SumN(n, LAMBDA j : MulT(In(R, s * n + j), Tik(IF q THEN CarS(t, j) ELSE CarC(t, j))))
FmMetric(R, s) ==
  LET n == Sps(R.g)  K == (n * R.amp) \div 12000 + 1
      u == FmTone(R.g, TRUE)  d == FmTone(R.g, FALSE)
      a == ToneSum(R, u, s, FALSE) \div K   b == ToneSum(R, u, s, TRUE) \div K
      c == ToneSum(R, d, s, FALSE) \div K   e == ToneSum(R, d, s, TRUE) \div K
      del == (n * (2 + R.amp \div 5000)) \div K + 2
  IN <<a * a + b * b - c * c - e * e, 2 * del * (Abs(a) + Abs(b) + Abs(c) + Abs(e) + 2 * del)>>
\* FM: the input in units of 1/4; 0.05 rad = 0.05/(2 pi) turn; U = 2^18 parts of a turn
FmCum(R, i) == LET n == Sps(R.g)  s == i \div n IN
               SumN(s, LAMBDA k : In(R, k) * n) + In(R, s) * ((i % n) + 1)
FmDev(q) == \* q quarters of 0.05 rad, in 2^-18 turns: 2^18 * 0.05 / (8 pi) = 521.518917...
  q * 521 + RDiv((q \div 1000) * 518917 + ((q % 1000) * 518917) \div 1000, 1000)
FmSample(R, i) ==
  LET g == R.g  U == 262144
      car == MulMod(i, g.fn % PhB(g), PhB(g))       \* in PhB parts
      c64 == car * 64
      carU == ((c64 \div PhB(g)) * 4096) + RDiv((c64 % PhB(g)) * 4096, PhB(g))
  IN Cos((carU + FmDev(FmCum(R, i))) % U, U)

\* chirp of rate rn/rd from f0 to f1 (numerators over fd): n = floor(fs rd / rn) samples;
\* sample i at time i/(n r): phase f0 i/(n r) + (f1 - f0) i^2 / (2 n^2 r)
ChirpLen(c) == (c.fs * c.rd) \div c.rn
ChirpPhB(c, n) == 2 * n * n * c.rn * c.fd
ChirpSample(c, i) ==
  LET n == ChirpLen(c)  B == ChirpPhB(c, n)
      lin == MulMod(i, (2 * n * c.f0 * c.rd) % B, B)
      i2 == MulMod(i, i, B)
      df == (c.f1 - c.f0) % B
      quad == MulMod(i2, (df * c.rd) % B, B)
  IN Cos((lin + quad) % B, B)

\* the same in other units: a chirp of n samples from a to b, in units of 1/D of the sample
\* rate (the phase of sample i is i a / D + i^2 (b - a) / (2 n D) turns), 2 n D <= 2^19
ChirpOfLen(c, i) ==
  LET B == 2 * c.n * c.D IN
  Cos((MulMod(i, (2 * c.n * c.a) % B, B) + MulMod(MulMod(i, i, B), (c.b - c.a) % B, B)) % B, B)

------------------------------------------------------------------------------
\* band-pass: bins b of 0..N/2 with low <= b fs / N <= high, as a circular kernel
BpBins(g) == {b \in 0..g.N \div 2 :
                 /\ g.lon * g.N <= b * g.fs * g.lod
                 /\ b * g.fs * g.hid <= g.hin * g.N}
BpKernel(g) == \* tik * N, index 0..N-1
  LET bins == BpBins(g) IN
  [m \in 0..g.N - 1 |->
     LET RECURSIVE go(_, _)
         go(S, acc) == IF S = {} THEN acc
            ELSE LET b == CHOOSE x \in S : TRUE
                     w == IF b = 0 \/ 2 * b = g.N THEN 1 ELSE 2
                 IN go(S \ {b}, acc + w * Tik(Cos((b * m) % g.N, g.N)))
     IN go(bins, 0)]
BpOut(R, A, i) == \* tik; inputs in tik, |x| <= 1
  LET N == R.g.N  blk == i \div N  t == i % N
      s == SumN(N, LAMBDA j : (In(R, blk * N + j) * (A[(t + N - j) % N] \div 8)) \div 1250)
  IN RDiv(s, N)

\* a sum of tones a cos(2 pi (b i / N + p / 8)): those in the band stay
InBand(g, b) == g.lon * g.N <= b * g.fs * g.lod /\ b * g.fs * g.hid <= g.hin * g.N
ToneVal(g, t, i) == (Tik(Cos((((t.b * (i % g.N)) % g.N) * 8 + t.p * g.N) % (8 * g.N), 8 * g.N)) * t.a) \div 10000
BpTone(R, i) == SumN(Len(R.g.tones), LAMBDA k : IF InBand(R.g, R.g.tones[k + 1].b) THEN ToneVal(R.g, R.g.tones[k + 1], i) ELSE 0)
\* is the input what the record says it is?
BpToneIn(R) == \A m \in 0..19 : LET i == (m * 37) % NIn(R) IN
   Near(In(R, i), SumN(Len(R.g.tones), LAMBDA k : ToneVal(R.g, R.g.tones[k + 1], i)), 20)

------------------------------------------------------------------------------
\* Butterworth band-pass of order 64, forwards and backwards over blocks of BuLen samples.
\* Through the bilinear transform an input frequency theta has the low-pass equivalent
\*   W = |cos((h+l)/2) - cos(theta) cos((h-l)/2)| / (sin(theta) sin((h-l)/2))
\* and the gain is 1/(1 + W^128): 1 inside the band, 0 outside, in between at its edges.  Far from
\* the ends of a block a block of period P comes out as its periodic components times that.
BuLen == 81920
BuFar == 20000
BuB(g) == 2 * g.fs * g.lod                               \* lo, hi over one denominator
BuNum(g, b) == Abs(Tik(Cos((g.lon + g.hin) % BuB(g), BuB(g))) * 10000
                   - Tik(Cos(b, g.P)) * Tik(Cos((g.hin - g.lon) % BuB(g), BuB(g)))) \div 100
BuDen(g, b) == (Tik(Sin(b, g.P)) * Tik(Sin((g.hin - g.lon) % BuB(g), BuB(g)))) \div 100
\* the gain; -1 too close to an edge to say
BuGain(g, b) ==
  IF b = 0 \/ 2 * b = g.P THEN 0
  ELSE IF 100 * BuNum(g, b) <= 93 * BuDen(g, b) - 4000 THEN 1
  ELSE IF 100 * BuNum(g, b) >= 107 * BuDen(g, b) + 4000 THEN 0
  ELSE -1
BuOK(g) == /\ 0 < g.lon /\ g.lon < g.hin /\ 2 * g.hin < g.fs * g.lod
           /\ 50 * (g.hin - g.lon) >= g.fs * g.lod
           /\ \A b \in 0..g.P \div 2 : BuGain(g, b) # -1
BuKernel(g) == \* tik * P
  LET G == [b \in 0..g.P \div 2 |-> BuGain(g, b)] IN
  [m \in 0..g.P - 1 |->
     SumN(g.P \div 2 + 1, LAMBDA b : (IF b = 0 \/ 2 * b = g.P THEN 1 ELSE 2) * G[b] * Tik(Cos((b * m) % g.P, g.P)))]
BuBlk(g, i) == g.per[((i \div BuLen) % Len(g.per)) + 1]
BuMiddle(g, i) ==
  LET t == i % BuLen
      n == IF g.len >= INF THEN BuLen ELSE Min2(BuLen, g.len - (i - t)) IN
  t >= BuFar /\ t < n - BuFar
BuOut(g, A, i) ==
  LET t == (i % BuLen) % g.P
      s == SumN(g.P, LAMBDA j : (BuBlk(g, i)[j + 1] * (A[(t + g.P - j) % g.P] \div 8)) \div 1250)
  IN RDiv(s, g.P)

------------------------------------------------------------------------------
\* coded link: what arrives after the listed bits of the coded stream were flipped
\* and the stream was cut after R.g.cut bits (if cut >= 0)
Damaged(bits, flips) == <<>> \o [i \in 1..Len(bits) |-> IF (i - 1) \in flips THEN 1 - bits[i] ELSE bits[i]]
Received(R) ==
  LET e == EncBits(R.in)
      d == Damaged(e, {R.g.flips[k] : k \in 1..Len(R.g.flips)})
  IN IF R.g.cut < 0 THEN d ELSE SubSeq(d, 1, Min2(R.g.cut, Len(d)))
\* expected decoder output: one entry per bit, 2 where unspecified; and the length of the
\* part that must be there
DecExpect(bits) ==
  LET fr == DecFrames(Bytes(bits))
      RECURSIVE go(_, _)
      go(k, acc) == IF k > Len(fr) THEN acc
                    ELSE go(k + 1, acc \o [j \in 1..8 * Len(fr[k][2]) |->
                        IF fr[k][1] THEN BitOf(fr[k][2][(j - 1) \div 8 + 1], (j - 1) % 8) ELSE 2])
      all == go(1, <<>>)
      last == IF fr = <<>> THEN <<TRUE, <<>>>> ELSE fr[Len(fr)]
  IN [bits |-> all, sure |-> IF last[1] THEN Len(all) ELSE Len(all) - 8 * Len(last[2])]

------------------------------------------------------------------------------
\* Data prepared once per run
Prep(R) ==
  CASE R.spec \in {"bch_enc", "bch_enc_cyc"} -> EncBits(R.in)
    [] R.spec = "bch_dec" -> DecExpect(R.in)
    [] R.spec = "rs_link" -> DecExpect(Received(R))
    [] R.spec = "bandpass" -> BpKernel(R.g)
    [] R.spec = "butter" -> BuKernel(R.g)
    [] OTHER -> <<>>

\* Whether the property makes a promise about this run at all
Guard(R) ==
  CASE R.spec = "link" -> LinkOK(R.g, R.kind, Len(R.in), R.amp)
    [] R.spec = "coded_link" -> BpskOK(R.g, 96 * CeilDiv(Len(R.in), 56), R.amp)
    [] R.spec = "mux" -> MuxOK(R)
    [] R.spec = "bch_enc_cyc" -> Len(R.in) % 56 = 0     \* whole frames: the code repeats as well
    [] R.spec = "dcsk_link" -> R.amp < 950       \* below the smallest orbit value
    [] R.spec = "fh_link" -> \A k \in 0..R.g.nf - 1 :
         BpskSym(R.g @@ [fn |-> R.g.f0 + k * R.g.step], 0, 0)
    [] R.spec = "bb_cdma_link" ->
         \A k \in 0..Len(R.in) - 1 :
            2 * Cardinality({j \in 1..Len(R.flips) : R.flips[j] \div Len(R.g.key) = k}) < Len(R.g.key)
    [] R.spec = "ofdm_link" -> HalfCycles(R.g, Sps(R.g)) /\ (2 * R.g.fn) % (R.g.fs * R.g.fd) # 0
    [] R.spec = "bp_tone" -> BpToneIn(R)
    [] R.spec = "butter" -> BuOK(R.g)
    [] R.spec = "fm_link" ->
         LET u == FmTone(R.g, TRUE)  d == FmTone(R.g, FALSE) IN
         /\ HalfCycles(u, Sps(R.g)) /\ HalfCycles(d, Sps(R.g))
         /\ (u.fn * Sps(R.g)) % PhB(u) # (d.fn * Sps(R.g)) % PhB(d) \/ u.fn # d.fn
         /\ (2 * u.fn) % PhB(u) # 0 /\ (2 * d.fn) % PhB(d) # 0
         /\ (u.fn - d.fn) % PhB(u) # 0 /\ (u.fn + d.fn) % PhB(u) # 0
         /\ ((u.fn - d.fn) * Sps(R.g)) % PhB(u) = 0
    [] OTHER -> TRUE

\* Number of outputs, as an interval <<lo, hi>> (INF: never ends)
Lens(R, A) ==
  LET n == NIn(R)  g == R.g  one(x) == <<x, x>>
      sps == IF "sr" \in DOMAIN g THEN Sps(g) ELSE 0
      blocksIn(d) == CDiv(n, d)
  IN
  CASE R.spec \in {"tx_bb_bpsk", "rx_bb_bpsk", "id", "integrate", "integrate_cyc", "integrate_c", "nintegrate", "scale", "scale_c"} -> one(n)
    [] R.spec \in {"tx_bpsk", "tx_fsk", "tx_fmfsk", "tx_fm"} -> one(Times(n, sps))
    [] R.spec = "tx_qpsk" -> one(Times(FDiv(n, 2), sps))
    [] R.spec = "tx_qpsk_amp" -> one(Times(FDiv(n, 2), sps))
    [] R.spec \in {"tx_bb_qpsk", "tx_bb_qpsk_amp"} -> one(FDiv(n, 2))
    [] R.spec = "rx_bb_qpsk" -> one(Times(n, 2))
    [] R.spec \in {"rx_bpsk"} -> one(FDiv(n, sps))
    [] R.spec = "rx_qpsk" -> one(Times(FDiv(n, sps), 2))
    [] R.spec = "rx_fmfsk" -> <<FDiv(n, sps), CDiv(n, sps)>>
    [] R.spec = "link" -> one(IF BitsPerSym(R.kind) = 2 THEN Times(FDiv(n, 2), 2) ELSE n)
    [] R.spec = "coded_link" -> one(Times(CDiv(n, 8), 8))
    [] R.spec = "mux" -> one(IF BitsPerSym(R.kind) = 2 THEN Times(FDiv(n, 2), 2) ELSE n)
    [] R.spec \in {"fh_link", "fm_link", "csk_link", "dcsk_link"} -> one(n)
    [] R.spec = "fod_link" -> <<7 * CeilDiv(n, 7), 7 * (n \div 7 + 1)>>
    [] R.spec = "tx_bb_cdma" -> one(Times(n, Len(g.key)))
    [] R.spec = "rx_bb_cdma" -> <<FDiv(n, Len(g.key)), CDiv(n, Len(g.key))>>
    [] R.spec = "bb_cdma_link" -> one(n)
    [] R.spec = "bits2bytes" -> one(CDiv(n, 8))
    [] R.spec = "bytes2bits" -> one(Times(n, 8))
    [] R.spec = "packlink" -> one(Times(CDiv(n, 8), 8))
    [] R.spec = "bch_enc_cyc" -> one(INF)
    [] R.spec = "bch_enc" -> one(Len(A))
    [] R.spec \in {"bch_dec", "rs_link"} -> <<A.sure, Len(A.bits)>>
    [] R.spec = "tx_bb_ofdm" -> one(Times(blocksIn(DataCount(g.sub, g.pil)), Blk(g.sub)))
    [] R.spec = "rx_bb_ofdm" -> one(Times(FDiv(n, Blk(g.sub)), DataCount(g.sub, g.pil)))
    [] R.spec = "bb_ofdm_link" -> one(Times(blocksIn(DataCount(g.sub, g.pil)), DataCount(g.sub, g.pil)))
    [] R.spec = "tx_ofdm" -> one(Times(Times(CDiv(FDiv(n, 2), DataCount(g.sub, g.pil)), Blk(g.sub)), sps))
    [] R.spec = "rx_ofdm" -> one(Times(FDiv(FDiv(n, sps), Blk(g.sub)), 2 * DataCount(g.sub, g.pil)))
    [] R.spec = "ofdm_link" -> one(Times(CDiv(FDiv(n, 2), DataCount(g.sub, g.pil)), 2 * DataCount(g.sub, g.pil)))
    [] R.spec = "chirp" -> one(ChirpLen(g))
    [] R.spec = "chirp_n" -> one(g.n)
    [] R.spec \in {"bandpass", "bp_tone"} -> one(n)
    [] R.spec = "butter" -> one(g.len)
    [] R.spec = "rx_dcsk" -> one(FDiv(n, 2))
    [] R.spec = "chunks" -> one(CDiv(n, g.n))
    [] R.spec = "wchunks" -> <<CDiv(n, g.n), IF n >= INF THEN INF ELSE n \div g.n + 1>>
    [] R.spec = "inflate" -> one(Times(n, g.n))
    [] R.spec = "inflate_fork" -> one(2 * n * g.n - g.k)
    [] R.spec = "take_every" -> one(CDiv(n, g.n))
    [] R.spec \in {"intdump", "intdump_c", "nintdump", "intdump_cyc", "nintdump_cyc"} -> one(FDiv(n, g.n))
    [] R.spec \in {"convolve", "nonvolve"} -> one(IF n = 0 THEN 0 ELSE Plus(n, Len(g.h) - 1))
    [] R.spec = "linspace" -> one(g.n)
    [] R.spec \in {"ref", "pre"} -> g.len

\* Inputs needed for the first k outputs (k >= 1)
Need(R, k) ==
  LET g == R.g
      sps == IF "sr" \in DOMAIN g THEN Sps(g) ELSE 0 IN
  CASE R.spec \in {"tx_bpsk", "tx_fsk", "tx_fmfsk", "tx_fm"} -> CeilDiv(k, sps)
    [] R.spec = "tx_qpsk" -> 2 * CeilDiv(k, sps)
    [] R.spec = "tx_bb_qpsk" -> 2 * k
    [] R.spec = "rx_bb_qpsk" -> CeilDiv(k, 2)
    [] R.spec \in {"rx_bpsk", "rx_fmfsk"} -> k * sps
    [] R.spec = "rx_qpsk" -> CeilDiv(k, 2) * sps
    [] R.spec \in {"link", "mux"} -> CeilDiv(k, BitsPerSym(R.kind)) * BitsPerSym(R.kind)
    [] R.spec \in {"coded_link", "rs_link"} -> 56 * CeilDiv(k, 56)
    [] R.spec = "fod_link" -> 7 * CeilDiv(k, 7)
    [] R.spec = "tx_bb_cdma" -> CeilDiv(k, Len(g.key))
    [] R.spec = "rx_bb_cdma" -> k * Len(g.key)
    [] R.spec = "bits2bytes" -> 8 * k
    [] R.spec = "bytes2bits" -> CeilDiv(k, 8)
    [] R.spec = "packlink" -> 8 * CeilDiv(k, 8)
    [] R.spec \in {"bch_enc", "bch_enc_cyc"} -> 56 * CeilDiv(k, 96)
    [] R.spec = "bch_dec" -> 96 * CeilDiv(k, 56)
    [] R.spec = "tx_bb_ofdm" -> DataCount(g.sub, g.pil) * CeilDiv(k, Blk(g.sub))
    [] R.spec = "rx_bb_ofdm" -> Blk(g.sub) * CeilDiv(k, DataCount(g.sub, g.pil))
    [] R.spec = "bb_ofdm_link" -> DataCount(g.sub, g.pil) * CeilDiv(k, DataCount(g.sub, g.pil))
    [] R.spec = "tx_ofdm" -> 2 * DataCount(g.sub, g.pil) * CeilDiv(k, Blk(g.sub) * sps)
    [] R.spec = "rx_ofdm" -> Blk(g.sub) * sps * CeilDiv(k, 2 * DataCount(g.sub, g.pil))
    [] R.spec = "ofdm_link" -> 2 * DataCount(g.sub, g.pil) * CeilDiv(k, 2 * DataCount(g.sub, g.pil))
    [] R.spec \in {"bandpass", "bp_tone"} -> g.N * CeilDiv(k, g.N)
    [] R.spec = "butter" -> BuLen * CeilDiv(k, BuLen)
    [] R.spec = "rx_dcsk" -> 2 * k
    [] R.spec \in {"chunks", "wchunks"} -> g.n * k
    [] R.spec = "inflate" -> IF g.n = 0 THEN 0 ELSE CeilDiv(k, g.n)
    [] R.spec = "inflate_fork" -> Len(R.in)
    [] R.spec = "take_every" -> g.n * k
    [] R.spec \in {"intdump", "intdump_c", "nintdump", "intdump_cyc", "nintdump_cyc"} -> g.n * k
    [] R.spec \in {"ref", "pre"} -> g.inb * CeilDiv(k, g.outb)
    [] OTHER -> k
\* Read-ahead we tolerate (block buffering), and what the constructor may take
Ahead(R) == 64 + 4 * Need(R, 1)

\* Whether output number i (from 0) may be v
All(n, P(_)) == IF \A j \in 0..n - 1 : P(j) THEN -1 ELSE CHOOSE j \in 0..n - 1 : ~P(j)
NearC(v, w, tol) == Near(v[1], w[1], tol) /\ Near(v[2], w[2], tol)
WaveTol == 6

\* First offset j (0 <= j < n) at which the outputs V(0), ..., V(n-1), being outputs number
\* pos, pos+1, ... of run R, are wrong; -1 if they are all right.
FirstBad(R, A, pos, n, V(_)) ==
  LET g == R.g  nin == NIn(R)
      bit(k) == IF k < nin THEN In(R, k) ELSE 0
      negs == IF "neg" \in DOMAIN R THEN {R.neg[k] : k \in 1..Len(R.neg)} ELSE {}
      keyed == IF "key" \in DOMAIN g THEN Len(g.key) ELSE 0
  IN
  CASE R.spec = "tx_bpsk" -> All(n, LAMBDA j : Near(V(j), BpskSample(g, LAMBDA k : In(R, k), pos + j), WaveTol))
    [] R.spec = "tx_qpsk" -> All(n, LAMBDA j : Near(V(j), QpskSample(g, LAMBDA k : In(R, k), pos + j), WaveTol))
    [] R.spec = "tx_qpsk_amp" ->     \* the QPSK waveform times some positive constant
            IF n = 0 THEN -1 ELSE
            LET S(i) == QpskSample(g, LAMBDA k : In(R, k), i)
                m == CHOOSE i \in 0..Min2(n, 64) - 1 : \A h \in 0..Min2(n, 64) - 1 : Abs(S(h)) <= Abs(S(i))
                vm == Tik(V(m))  sm == Tik(S(m))
            IN IF Abs(sm) < 3000 THEN -1
               ELSE IF Sgn(vm) # Sgn(sm) \/ Abs(vm) < 1000 THEN m
               ELSE All(n, LAMBDA j : Near(Tik(V(j)) * (sm \div 10), Tik(S(pos + j)) * (vm \div 10), 4 * (Abs(vm) + Abs(sm)) + 60000))
    [] R.spec = "tx_bb_qpsk_amp" -> All(n, LAMBDA j : \A c \in 1..2 :
            LET w == Nrz(In(R, 2 * (pos + j) + c - 1)) IN Sgn(V(j)[c]) = w /\ Near(Abs(V(j)[c]), Abs(V(0)[1]), 2))
    [] R.spec = "tx_bb_bpsk" -> All(n, LAMBDA j : NearC(V(j), <<1000000 * Nrz(In(R, pos + j)), 0>>, 1))
    [] R.spec = "tx_bb_qpsk" -> All(n, LAMBDA j : NearC(V(j),
            <<1414214 * Nrz(In(R, 2 * (pos + j))), 1414214 * Nrz(In(R, 2 * (pos + j) + 1))>>, 2))
    [] R.spec = "rx_bb_bpsk" -> All(n, LAMBDA j : Decides(V(j), In(R, pos + j)[1], 0))
    [] R.spec = "rx_bb_qpsk" -> All(n, LAMBDA j : Decides(V(j), In(R, (pos + j) \div 2)[1 + ((pos + j) % 2)], 0))
    [] R.spec = "rx_bpsk" -> All(n, LAMBDA j :
            Decides(V(j), CorrC(g, LAMBDA k : In(R, k), pos + j), CorrTol(g, R.amp)))
    [] R.spec = "rx_qpsk" -> All(n, LAMBDA j :
            LET s == (pos + j) \div 2 IN
            Decides(V(j), IF (pos + j) % 2 = 0 THEN CorrC(g, LAMBDA k : In(R, k), s)
                                               ELSE CorrS(g, LAMBDA k : In(R, k), s), CorrTol(g, R.amp)))
    [] R.spec \in {"link", "mux", "fh_link", "fm_link", "csk_link", "dcsk_link"} ->
            LET bps == BitsPerSym(R.kind) IN
            All(n, LAMBDA j : V(j) = (IF (pos + j) \div bps \in negs THEN 1 - In(R, pos + j) ELSE In(R, pos + j)))
    [] R.spec = "coded_link" -> All(n, LAMBDA j : V(j) = bit(pos + j))
    [] R.spec = "fod_link" -> All(n, LAMBDA j : pos + j < nin => V(j) = In(R, pos + j))
    [] R.spec = "tx_bb_cdma" -> All(n, LAMBDA j :
            V(j) = Xor(In(R, (pos + j) \div keyed), g.key[((pos + j) % keyed) + 1]))
    [] R.spec = "rx_bb_cdma" -> All(n, LAMBDA j :
            \/ nin < INF /\ (pos + j + 1) * keyed > nin           \* incomplete last block
            \/ LET ones == SumN(keyed, LAMBDA m : Xor(In(R, (pos + j) * keyed + m), g.key[m + 1]))
               IN Decides(V(j), 2 * ones - keyed, 0))
    [] R.spec = "bb_cdma_link" -> All(n, LAMBDA j : V(j) = In(R, pos + j))
    [] R.spec = "bits2bytes" -> All(n, LAMBDA j : V(j) = SumN(8, LAMBDA m : bit(8 * (pos + j) + m) * P2Tab[m]))
    [] R.spec = "bytes2bits" -> All(n, LAMBDA j : V(j) = BitOf(In(R, (pos + j) \div 8), (pos + j) % 8))
    [] R.spec = "bch_enc" -> All(n, LAMBDA j : V(j) = A[pos + j + 1])
    [] R.spec = "packlink" -> All(n, LAMBDA j : V(j) = bit(pos + j))
    [] R.spec = "bch_enc_cyc" -> All(n, LAMBDA j : V(j) = A[((pos + j) % Len(A)) + 1])
    [] R.spec \in {"bch_dec", "rs_link"} -> All(n, LAMBDA j : A.bits[pos + j + 1] \in {2, V(j)})
    [] R.spec = "tx_bb_ofdm" -> All(n, LAMBDA j :
            LET i == pos + j  blk == i \div Blk(g.sub) IN
            NearC(V(j), OfdmSample(g.sub, g.pil, DataCount(g.sub, g.pil),
                                   LAMBDA k : OfdmX(R, blk, k), i % Blk(g.sub)), 60))
    [] R.spec = "rx_bb_ofdm" -> All(n, LAMBDA j :
            LET i == pos + j  D == DataCount(g.sub, g.pil)  blk == i \div D
                base == blk * Blk(g.sub) + CP(g.sub) IN
            NearC(V(j), OfdmBin(g.sub, g.pil, LAMBDA t : In(R, base + t), i % D), 3 * g.sub + 2))
    [] R.spec = "bb_ofdm_link" -> All(n, LAMBDA j : NearC(V(j), SymIn(R, pos + j), 1))
    [] R.spec = "tx_ofdm" -> All(n, LAMBDA j :
            LET i == pos + j  y == OfdmBase(R, i \div Sps(g)) IN
            Near(V(j), (Tik(y[1]) * Tik(CarC(g, i)) - Tik(y[2]) * Tik(CarS(g, i))) \div 100, 400))
    [] R.spec = "rx_ofdm" -> All(n, LAMBDA j :
            LET D == DataCount(g.sub, g.pil)  s == (pos + j) \div 2  blk == s \div D
                base == blk * Blk(g.sub) + CP(g.sub)
                v == OfdmBin(g.sub, g.pil, LAMBDA t : Mixed(R, base + t), s % D)
            IN Decides(V(j), v[1 + ((pos + j) % 2)], 6 * g.sub * Sps(g)))
    [] R.spec = "ofdm_link" -> All(n, LAMBDA j : IF pos + j < 2 * (nin \div 2) THEN V(j) = In(R, pos + j) ELSE TRUE)
    [] R.spec = "tx_fsk" -> All(n, LAMBDA j : Near(V(j), FskSample(R, pos + j), WaveTol))
    [] R.spec = "tx_fmfsk" -> All(n, LAMBDA j :
            Near(V(j), CarC(FmTone(g, In(R, (pos + j) \div Sps(g)) = 1), pos + j), WaveTol))
    [] R.spec = "rx_fmfsk" -> All(n, LAMBDA j :
            \/ nin < INF /\ (pos + j + 1) * Sps(g) > nin          \* incomplete last block
            \/ LET f == FmMetric(R, pos + j) IN Decides(V(j), f[1], f[2]))
    [] R.spec = "tx_fm" -> All(n, LAMBDA j : Near(V(j), FmSample(R, pos + j), 60))
    [] R.spec = "chirp" -> All(n, LAMBDA j : Near(V(j), ChirpSample(g, pos + j), WaveTol))
    [] R.spec = "chirp_n" -> All(n, LAMBDA j : Near(V(j), ChirpOfLen(g, pos + j), WaveTol))
    [] R.spec = "bandpass" -> All(n, LAMBDA j : Near(V(j), BpOut(R, A, pos + j), 2 * g.N + 20))
    [] R.spec = "butter" -> All(n, LAMBDA j :
            IF BuMiddle(g, pos + j) THEN Near(V(j), BuOut(g, A, pos + j), 2 * g.P + 20) ELSE V(j) # NonFinite)
    [] R.spec = "bp_tone" -> All(n, LAMBDA j : Near(V(j), BpTone(R, pos + j), 60))
    [] R.spec = "rx_dcsk" -> All(n, LAMBDA j :
            Decides(V(j), Sgn(In(R, 2 * (pos + j))) * Sgn(In(R, 2 * (pos + j) + 1)), 0))
    [] R.spec = "id" -> All(n, LAMBDA j : V(j) = In(R, pos + j))
    [] R.spec = "chunks" -> All(n, LAMBDA j :
            LET k == pos + j  m == IF nin >= INF THEN g.n ELSE Min2(g.n, nin - g.n * k) IN
            V(j) = [t \in 1..m |-> In(R, g.n * k + t - 1)])
    [] R.spec = "wchunks" -> All(n, LAMBDA j :
            LET k == pos + j IN V(j) = [t \in 1..g.n |-> bit(g.n * k + t - 1)])
    [] R.spec = "inflate" -> All(n, LAMBDA j : V(j) = In(R, (pos + j) \div g.n))
    [] R.spec = "inflate_fork" -> All(n, LAMBDA j : LET p == pos + j  w == Len(R.in) * g.n IN V(j) = In(R, (IF p < w THEN p ELSE p - w + g.k) \div g.n))
    [] R.spec = "take_every" -> All(n, LAMBDA j : V(j) = In(R, (pos + j) * g.n))
    [] R.spec = "scale" -> All(n, LAMBDA j : V(j) = In(R, pos + j) * g.k)
    [] R.spec = "scale_c" -> All(n, LAMBDA j : \A c \in 1..2 : V(j)[c] = In(R, pos + j)[c] * g.k)
    [] R.spec = "integrate_c" -> All(n, LAMBDA j : \A c \in 1..2 : V(j)[c] = SumN(pos + j + 1, LAMBDA k : In(R, k)[c]))
    [] R.spec = "intdump_c" -> All(n, LAMBDA j : \A c \in 1..2 :
            V(j)[c] = SumN(g.n, LAMBDA k : In(R, (pos + j) * g.n + k)[c]))
    [] R.spec = "integrate_cyc" -> All(n, LAMBDA j :       \* a repeated input whose period sums to 0
            V(j) = SumN(((pos + j) % Len(R.in)) + 1, LAMBDA k : In(R, k)))
    [] R.spec = "integrate" -> All(n, LAMBDA j : V(j) = SumN(pos + j + 1, LAMBDA k : In(R, k)))
    [] R.spec = "intdump" -> All(n, LAMBDA j : V(j) = SumN(g.n, LAMBDA k : In(R, (pos + j) * g.n + k)))
    [] R.spec = "intdump_cyc" -> All(n, LAMBDA j :         \* a repeated input: any block size
            V(j) = CycSum(R, (pos + j + 1) * g.n, LAMBDA k : In(R, k)) - CycSum(R, (pos + j) * g.n, LAMBDA k : In(R, k)))
    [] R.spec = "nintdump_cyc" -> All(n, LAMBDA j : \A c \in 1..3 :
            V(j)[c] = CycSum(R, (pos + j + 1) * g.n, LAMBDA k : In(R, k)[c]) - CycSum(R, (pos + j) * g.n, LAMBDA k : In(R, k)[c]))
    [] R.spec = "nintegrate" -> All(n, LAMBDA j : \A c \in 1..3 : V(j)[c] = SumN(pos + j + 1, LAMBDA k : In(R, k)[c]))
    [] R.spec = "nintdump" -> All(n, LAMBDA j : \A c \in 1..3 :
            V(j)[c] = SumN(g.n, LAMBDA k : In(R, (pos + j) * g.n + k)[c]))
    [] R.spec = "convolve" -> All(n, LAMBDA j :
            V(j) = SumN(Len(g.h), LAMBDA k : IF pos + j - k >= 0 /\ pos + j - k < nin
                                             THEN g.h[k + 1] * In(R, pos + j - k) ELSE 0))
    [] R.spec = "nonvolve" -> All(n, LAMBDA j : \A c \in 1..3 :
            V(j)[c] = SumN(Len(g.h), LAMBDA k : IF pos + j - k >= 0 /\ pos + j - k < nin
                                             THEN g.h[k + 1] * In(R, pos + j - k)[c] ELSE 0))
    [] R.spec = "linspace" -> All(n, LAMBDA j : \* values a + (b - a) i / n in milli
            Near(V(j), g.a * 1000 + RDiv((g.b - g.a) * 1000 * (pos + j), g.n), 1))
    [] R.spec = "ref" -> All(n, LAMBDA j : V(j) = R.in[pos + j + 1])
    [] R.spec = "pre" -> All(n, LAMBDA j : pos + j < g.fix => V(j) = R.in[pos + j + 1])
=============================================================================
