----------------------------- MODULE FuncTrace -----------------------------
(***************************************************************************)
(* Conformance of plain functions: one call, one result.  A run R:          *)
(*   spec  the function    a  its arguments    res  what it returned        *)
(*   panic whether it panicked    osc  units of the result                  *)
(* Results that need many values are judged one row per step (variable k).  *)
(***************************************************************************)
EXTENDS Ssca, Walsh, ErfTable, TLC, TLCExt, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, k, data, verdict
vars == <<r, k, data, verdict>>
R == Runs[r]
A == R.a
V == R.res

SumF(n, f(_)) == SumSeq(n, f)
Sq(x) == x * x
Pivot(L) == CeilDiv(L, 2)
RECURSIVE PowTen(_)
PowTen(e) == IF e = 0 THEN 1 ELSE 10 * PowTen(e - 1)
NearC(v, w, tol) == Near(v[1], w[1], tol) /\ Near(v[2], w[2], tol)

\* 10 log10(x) in thousandths, x a positive integer: the binary digits of log2 by repeated squaring
RECURSIVE Lead(_)
Lead(x) == IF x < 2 THEN 0 ELSE 1 + Lead(x \div 2)
RECURSIVE Frac2(_, _, _)          \* y in [2^14, 2^15): 13 digits of log2(y / 2^14), in 2^-13
Frac2(y, d, acc) == IF d = 13 THEN acc
                    ELSE LET q == (y * y + 8192) \div 16384
                         IN IF q >= 32768 THEN Frac2(q \div 2, d + 1, 2 * acc + 1) ELSE Frac2(q, d + 1, 2 * acc)
Norm14(x) == LET L == Lead(x) IN IF L >= 14 THEN (x \div 2 ^ (L - 14)) ELSE x * 2 ^ (14 - L)
Db(x) == Lead(x) * 3010 + (Lead(x) * 3) \div 10 + (Frac2(Norm14(x), 0, 0) * 3010) \div 8192
Mag(z) == z[1] * z[1] + z[2] * z[2]
\* a duration in words: only the parts that are not all zero from the left, years of 365.25 days
SecsStr(n) ==
  LET part(per, name, v) == IF n >= per THEN ToString(v) \o name ELSE ""
      y == n % 31557600  d == y % 86400
  IN part(31557600, "Y:", n \div 31557600) \o part(86400, "d:", y \div 86400)
     \o part(3600, "h:", d \div 3600) \o part(60, "m:", (d % 3600) \div 60)
     \o ToString(d % 60) \o "s"
\* one column of a chaos frame: row i holds d[i] x[i], in some order of the rows; the states of
\* the next column follow from the values found at the same rank (all in 1/30000)
ColumnOf(j) == [i \in 1..A.b |-> V[i][j]]
Rank(w, i) == Cardinality({h \in 1..Len(w) : w[h] < w[i] \/ (w[h] = w[i] /\ h < i)}) + 1
Held(x) == <<>> \o [i \in 1..A.b |-> (2 * A.d[i] - 1) * x[i]]
Found(x, j) == LET q == SortSeq(ColumnOf(j), <)  w == Held(x) IN <<>> \o [i \in 1..A.b |-> q[Rank(w, i)]]
NextStates(x, j) == LET f == Found(x, j) IN <<>> \o [i \in 1..A.b |-> 30000 - 2 * RDiv(f[i] * f[i], 30000)]
\* power gain 1 / (1 + W^2n) of an order-n Butterworth band-pass at f, 10^-4 units; the analogue
\* frequency W is |cos((h + l)/2) - cos(t) cos((h - l)/2)| / (sin(t) sin((h - l)/2))
RECURSIVE PowT(_, _)
PowT(x, m) == IF m = 0 THEN 10000 ELSE (x * PowT(x, m - 1) + 5000) \div 10000
BandGain(fs, lo, hi, fn, fd, n) ==
  LET c0 == Tik(Cos(hi + lo, 2 * fs))  cw == Tik(Cos(hi - lo, 2 * fs))  sw == Tik(Sin(hi - lo, 2 * fs))
      ct == Tik(Cos(fn, fd))  st == Tik(Sin(fn, fd))
      u == Abs(c0 - (ct * cw) \div 10000)  v == (st * sw) \div 10000
  IN IF u <= v THEN LET p == PowT((u * 10000) \div v, 2 * n) IN 100000000 \div (10000 + p)
     ELSE LET p == PowT((v * 10000) \div u, 2 * n) IN (p * 10000) \div (10000 + p)
RECURSIVE MaxOf(_)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

\* is the call one the property forbids?
Refused ==
  CASE R.spec \in {"hadamard", "hadamard_display"} -> ~IsPow2(A.n)
    [] OTHER -> FALSE

\* number of steps the result is judged in, and the data prepared for it
Steps ==
  CASE R.spec = "hadamard" -> Len(A.idx)
    [] R.spec = "hadamard_display" -> A.n
    [] R.spec \in {"ssca_base", "ssca_sym", "ssca_pair"} -> A.n
    [] R.spec = "ssca_at" -> Len(A.at)
    [] R.spec = "py_frame" -> A.b
    [] OTHER -> 1
Prepare == IF R.spec = "ssca_at"
           THEN [p \in (0..A.n - 1) \X {A.at[j][2] : j \in 1..Len(A.at)} |-> Strip(FALSE, A.x, A.n, A.np, p[1], p[2])]
           ELSE IF R.spec \in {"ssca_base", "ssca_sym"} THEN Strips(R.spec = "ssca_sym", A.x, A.n, A.np)
           ELSE IF R.spec = "py_frame" THEN [i \in 1..A.b |-> 30 + 3000 * (i - 1)] ELSE <<>>
SscaTol == 6 * A.n + 4 * A.np + 10

Shape ==
  CASE R.spec = "hadamard" -> Len(V) = Len(A.idx)
    [] R.spec = "hadamard_display" -> Len(V) = A.n
    [] R.spec \in {"ssca_base", "ssca_sym"} -> Len(V) = A.n
    [] R.spec = "ssca_at" -> Len(V) = Len(A.at)
    [] R.spec = "py_frame" -> Len(V) = A.b /\ \A i \in 1..A.b : Len(V[i]) = A.b
    [] R.spec = "ssca_pair" -> V.shape = <<A.np + 1, 2 * A.n + 1>> /\ V.bshape = <<A.n, A.np>>
    [] OTHER -> TRUE

StepOK ==
  CASE R.spec = "hadamard" ->
         /\ Len(V[k + 1]) = A.n
         /\ \A c \in 0..A.n - 1 : V[k + 1][c + 1] = Entry(RowOf(A.n, A.idx[k + 1]), c)
    [] R.spec = "hadamard_display" ->
         /\ Len(V[k + 1]) = A.n
         /\ \A c \in 0..A.n - 1 : V[k + 1][c + 1] = Entry(k, c)
    [] R.spec \in {"ssca_base", "ssca_sym"} ->
         /\ Len(V[k + 1]) = A.np
         /\ \A c \in 0..A.np - 1 : NearC(V[k + 1][c + 1], SscaEntry(data, A.n, A.np, k, c), SscaTol)
    [] R.spec = "ssca_at" ->
         NearC(V[k + 1], SscaEntry(data, A.n, A.np, A.at[k + 1][1], A.at[k + 1][2]), SscaTol)
    [] R.spec = "ssca_pair" ->
         \* every stored cell belongs to an entry with that value, every entry is stored
         /\ \A c \in 0..A.np - 1 :
              \/ <<k, c>> \in {V.small[j] : j \in 1..Len(V.small)}
              \/ \E j \in 1..Len(V.cells) : <<V.cells[j][1], V.cells[j][2]>> = Cell(A.n, A.np, k, c)
                                            /\ \E h \in 1..Len(V.cells[j][3]) : V.cells[j][3][h] = <<k, c>>
         /\ k = 0 => \A j \in 1..Len(V.cells) : \E h \in 1..Len(V.cells[j][3]) :
              Cell(A.n, A.np, V.cells[j][3][h][1], V.cells[j][3][h][2]) = <<V.cells[j][1], V.cells[j][2]>>
    [] R.spec = "ber" ->
         LET L == Min2(Len(A.x), Len(A.y))
             errs == Cardinality({i \in 1..L : A.x[i] # A.y[i]})
         IN Near(V, RDiv(errs * R.osc, L), 1) /\ (V = 0 <=> errs = 0)
    [] R.spec = "energy" -> Near(V, RDiv(SumF(Len(A.x), LAMBDA i : Sq(A.x[i + 1])) * R.osc * A.fs[2], A.fs[1]), 1)
    [] R.spec = "power" -> Near(V, RDiv(SumF(Len(A.x), LAMBDA i : Sq(A.x[i + 1])) * R.osc * A.fs[2], A.fs[1] * Len(A.x)), 1)
    [] R.spec = "avg_energy" -> Near(V, RDiv(SumF(Len(A.x), LAMBDA i : Sq(A.x[i + 1])) * R.osc, Len(A.x)), 1)
    [] R.spec = "bit_to_nrz" -> V = (2 * A.b - 1) * R.osc
    [] R.spec = "hamming" -> Len(V) = A.n /\ \A i \in 1..A.n : Near(V[i], Ham(i - 1, A.n), 3)
    [] R.spec = "hamming_c" -> Len(V) = A.n /\ \A i \in 1..A.n : NearC(V[i], <<Ham(i - 1, A.n), 0>>, 3)
    [] R.spec \in {"fftshift", "fftshift_mut"} ->
         LET L == Len(A.v) IN Len(V) = L /\ \A i \in 0..L - 1 : V[i + 1] = A.v[((i + Pivot(L)) % L) + 1]
    [] R.spec = "linspace" -> \* milli
         Len(V) = A.n /\ \A i \in 0..A.n - 1 : Near(V[i + 1], A.lo * 1000 + RDiv((A.hi - A.lo) * 1000 * i, A.n), 1)
    [] R.spec = "db_ten" -> \* decibels of 10^e, and the power ratio of 10 e decibels (both in milli)
         Near(V[1], 10000 * A.e, 1) /\ Near(V[2], IF A.e >= 0 THEN 1000 * PowTen(A.e) ELSE 1000 \div PowTen(-A.e), 1)
    [] R.spec = "db_rt" -> \* undb(db(x)) = x, db(undb(y)) = y, db(x) + db(1/x) = 0  (micro)
         Near(V[1], A.x, 2) /\ Near(V[2], A.y, 2) /\ Near(V[3], 0, 2)
    \* Python side: decibels in thousandths
    [] R.spec = "energy_db" -> Near(V, Db(SumF(Len(A.x), LAMBDA i : Sq(A.x[i + 1]))) - A.off, 4)
    [] R.spec = "max_cut" -> Near(V, Db(MaxOf({Mag(A.m[i][j]) : i \in 1..Len(A.m), j \in 1..Len(A.m[1])})) - A.off, 4)
    [] R.spec = "dcs" ->
         Near(V, MaxOf({Db(SumF(Len(A.m), LAMBDA i : Mag(A.m[i + 1][j]))) - Db(Mag(A.m[1][j])) : j \in 1..Len(A.m[1])}), 8)
    \* error function at n / 65536, 10^-8 units: 1.2e-7 and rounding
    [] R.spec = "erf" ->
         /\ Len(V) = Len(A.n)
         /\ \A i \in 1..Len(V) : Near(V[i], Erf(A.n[i]), 14) /\ Abs(V[i]) <= 100000000
         \* odd: the second half of the arguments is the first negated
         /\ LET h == Len(V) \div 2 IN \A i \in 1..h : A.n[i] # 0 => Near(V[i], -V[h + i], 2)
    [] R.spec = "erfc" ->
         /\ Len(V) = Len(A.n)
         /\ \A i \in 1..Len(V) : Near(V[i], 100000000 - Erf(A.n[i]), 14) /\ V[i] >= 0 /\ V[i] <= 200000000
    [] R.spec = "erf_far" -> \* arguments of size 6 and more
         /\ Len(V) = Len(A.v)
         /\ \A i \in 1..Len(V) : LET w == 100000000 * Sgn(A.v[i][1]) IN
              Near(V[i][1], w, 1) /\ Near(V[i][2], 100000000 - w, 1) /\ V[i][2] >= 0
    \* kom_py
    [] R.spec = "py_frame" ->
         LET w == Held(data)  f == Found(data, k + 1) IN \A i \in 1..A.b : Near(f[i], w[i], 4)
    [] R.spec = "py_bpf" -> \* mean square after settling, of the one before the filter
         LET g == BandGain(A.fs, A.lo, A.hi, A.b, A.p, A.n) IN Near(V, g, 40 + g \div 25)
    [] R.spec = "py_secs" -> IF A.n = 0 /\ A.frac = 0 THEN V # "" ELSE V = SecsStr(A.n)
    [] R.spec = "py_max_cut" -> \* row by row
         Len(V) = Len(A.m) /\ \A i \in 1..Len(A.m) :
            Near(V[i], Db(MaxOf({Mag(A.m[i][j]) : j \in 1..Len(A.m[1])})) - A.off, 4)
    [] R.spec = "py_dcs" -> \* column by column
         Len(V) = Len(A.m[1]) /\ \A j \in 1..Len(A.m[1]) :
            Near(V[j], Db(SumF(Len(A.m), LAMBDA i : Mag(A.m[i + 1][j]))) - Db(Mag(A.m[1][j])), 8)
    [] R.spec = "floor_pow2" -> \* of 2^e + d, d small: exponent, and that it is a power of two
         V = <<IF A.d >= 0 THEN A.e ELSE A.e - 1, 1>>
    [] R.spec = "next_pow2" -> V = <<IF A.d <= 0 THEN A.e ELSE A.e + 1, 1>>
    [] R.spec = "py_chunk" ->
         Len(V) = CeilDiv(Len(A.v), A.n) /\ \A j \in 1..Len(V) :
            V[j] = [t \in 1..A.n |-> IF A.n * (j - 1) + t <= Len(A.v) THEN A.v[A.n * (j - 1) + t] ELSE A.fill]
    [] R.spec = "py_nrz" -> V = [i \in 1..Len(A.b) |-> 2 * A.b[i] - 1]
    [] R.spec = "py_scale" -> V = [i \in 1..Len(A.v) |-> A.v[i] * A.k]
    [] R.spec = "iq_energy" -> Near(V, RDiv(SumF(Len(A.c), LAMBDA i : Mag(A.c[i + 1])) * R.osc, 2 * Len(A.c)), 1)
    [] R.spec = "py_cheb" -> \* orbit of 1 - 2 x^2, in 1/30000
         Len(V) = A.n /\ \A i \in 1..A.n : LET x == IF i = 1 THEN A.x ELSE V[i - 1] IN
            Near(V[i], 30000 - 2 * RDiv(x * x, 30000), 5) /\ Abs(V[i]) <= 30000
    [] R.spec = "py_start" -> V = (IF Abs(A.x) <= 30000 THEN 1 ELSE 0)
    [] R.spec = "ber_theory" -> \* of (n/65536)^2: BPSK and QPSK, 10^-8
         LET e == 100000000 - Erf(A.n)  a == e \div 10000  b == e % 10000
             e2 == a * a + (2 * a * b) \div 10000
         IN Near(V[1], e \div 2, 3) /\ Near(V[2], e \div 2 - e2 \div 4, 4)
    [] R.spec = "py_chirp" -> \* sin of 2 pi (f0 t + (f1 - f0) r t^2 / 2) + p pi/4 over n instants from 0 to 1/r
         LET n == (A.fs * A.rd) \div A.rn  m == n - 1  D == 8 * 2 * m * m * A.rn * A.fd
             df == (A.f1 - A.f0) % D
         IN Len(V) = n /\ \A i \in 0..n - 1 :
              LET lin == MulMod(i, (16 * m * A.f0 * A.rd) % D, D)
                  quad == MulMod(MulMod(i, i, D), (8 * df * A.rd) % D, D)
              IN Near(V[i + 1], Sin((lin + quad + A.p * (D \div 8)) % D, D), 8)
    [] R.spec = "random_data" ->
         LET ones == Cardinality({i \in 1..A.n : V[1][i] = 1})
             alike == Cardinality({i \in 1..A.n : V[1][i] = V[2][i]})
             runs == Cardinality({i \in 1..A.n - 1 : V[1][i] = V[1][i + 1]})
             ok(c) == Sq(2 * c - A.n) <= 64 * A.n + 4        \* eight standard deviations
         IN /\ Len(V[1]) = A.n /\ Len(V[2]) = A.n
            /\ \A i \in 1..A.n : V[1][i] \in {0, 1} /\ V[2][i] \in {0, 1}
            /\ A.n >= 100 => ok(ones) /\ ok(alike) /\ ok(runs)
            \* no stretch of 48 bits comes twice (a pool that is repeated, a short generator)
            /\ A.n >= 100 => Cardinality({SubSeq(V[1], i, i + 47) : i \in 1..A.n - 47}) >= A.n - 50
    \* samples of a continuous distribution, finely resolved: (almost) never the same twice
    [] R.spec = "distinct" -> Len(V) = A.n /\ Cardinality({V[i] : i \in 1..A.n}) >= A.n - 1
    [] R.spec = "ber_runs" -> \* stretches <<tx, rx, length>>
         LET n == SumF(Len(A.s), LAMBDA i : A.s[i + 1][3])
             e == SumF(Len(A.s), LAMBDA i : IF A.s[i + 1][1] # A.s[i + 1][2] THEN A.s[i + 1][3] ELSE 0)
         IN Near(V, RDiv(e * R.osc, n), 1) /\ (V = 0 <=> e = 0)
    [] R.spec = "same" -> \A i \in 2..Len(V) : V[i] = V[1]
    [] R.spec = "bool_to_u8" -> V = SumF(Min2(Len(A.v), 8), LAMBDA i : A.v[i + 1] * 2 ^ i)
    [] R.spec = "u8_to_bools" -> Len(V) = 8 /\ \A i \in 0..7 : V[i + 1] = (A.v \div 2 ^ i) % 2

Init == r \in 1..Len(Runs) /\ k = 0 /\ data = <<>> /\ verdict = "call"
Return == /\ verdict = "call"
          /\ IF R.panic # Refused \/ (~R.panic /\ ~Shape)
             THEN /\ PrintT(<<"REJECT", R.id, 0, IF R.panic THEN "panic" ELSE "should have been refused, or wrong shape">>)
                  /\ verdict' = "rejected" /\ UNCHANGED data
             ELSE verdict' = (IF R.panic THEN "done" ELSE "judge") /\ data' = (IF R.panic THEN <<>> ELSE Prepare)
          /\ UNCHANGED <<r, k>>
Judge == /\ verdict = "judge" /\ k < Steps
         /\ IF StepOK THEN k' = k + 1 /\ UNCHANGED verdict
            ELSE /\ PrintT(<<"REJECT", R.id, k, "wrong value">>)
                 /\ verdict' = "rejected" /\ UNCHANGED k
         /\ data' = IF R.spec = "py_frame" /\ verdict' = "judge" THEN NextStates(data, k + 1) ELSE data
         /\ UNCHANGED r
Accept == /\ (verdict = "judge" /\ k = Steps) \/ verdict = "done"
          /\ PrintT(<<"ACCEPT", R.id, k>>)
          /\ verdict' = "accepted" /\ UNCHANGED <<r, k, data>>
Next == Return \/ Judge \/ Accept
Spec == Init /\ [][Next]_vars
TypeOK == k \in 0..Steps /\ verdict \in {"call", "judge", "done", "accepted", "rejected"}
=============================================================================
