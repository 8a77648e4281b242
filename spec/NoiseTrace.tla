----------------------------- MODULE NoiseTrace -----------------------------
(***************************************************************************)
(* The additive noise channel, observed over long stretches.  A run R:      *)
(*   in   the input    sg   0 or 1 (no noise, some);  root = sqrt(length)   *)
(*   a    outputs of one channel (complex: two sequences, re and im)        *)
(*   b    outputs of a second, separately created channel on the same input *)
(* A residual is measured in hundredths of the deviation.  The observer     *)
(* reads the log one sample per step and accumulates the sums below; at the *)
(* end each must lie within seven standard errors of its value for          *)
(* independent zero-mean Gaussian residuals.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, k, acc, verdict
vars == <<r, k, acc, verdict>>
R == Runs[r]
N == Len(R.in)
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* the log is in units of 10^-4 deviations; a residual in hundredths, rounded to nearest
Res(s, i) == (s[i] - R.in[i] + 50) \div 100
Clip(x) == IF x > 1000 THEN 1000 ELSE IF x < -1000 THEN -1000 ELSE x

Chunk == 500                      \* samples per step
Zero == [sum |-> 0, sq |-> 0, t1 |-> 0, t2 |-> 0, t3 |-> 0, sig |-> 0, lag |-> 0, oth |-> 0, pos |-> 0,
         sqz |-> 0, sqn |-> 0, sqo |-> 0, sqh |-> 0]
Upd(A, i) ==
  LET x == Clip(Res(R.a, i))
      y == IF i > 1 THEN Clip(Res(R.a, i - 1)) ELSE 0
      z == Clip(Res(R.b, i))
  IN [sum |-> A.sum + x, sq |-> A.sq + x * x - 10000,
      t1 |-> A.t1 + (IF Abs(x) > 100 THEN 1 ELSE 0),
      t2 |-> A.t2 + (IF Abs(x) > 200 THEN 1 ELSE 0),
      t3 |-> A.t3 + (IF Abs(x) > 300 THEN 1 ELSE 0),
      sig |-> A.sig + x * Sgn(R.in[i]),
      lag |-> A.lag + (x * y + 50) \div 100,
      oth |-> A.oth + (x * z + 50) \div 100,
      pos |-> A.pos + Sgn(x),
      \* strength on zeros, on negative samples, on odd positions, in the first half
      sqz |-> A.sqz + (IF R.in[i] = 0 THEN x * x - 10000 ELSE 0),
      sqn |-> A.sqn + (IF R.in[i] < 0 THEN x * x - 10000 ELSE 0),
      sqo |-> A.sqo + (IF i % 2 = 1 THEN x * x - 10000 ELSE 0),
      sqh |-> A.sqh + (IF 2 * i <= N THEN x * x - 10000 ELSE 0)]
Fold(A, lo, hi) == LET RECURSIVE go(_, _)
                       go(i, B) == IF i > hi THEN B ELSE go(i + 1, Upd(B, i)) IN go(lo, A)

Whole == ~R.panic /\ Len(R.a) = N /\ Len(R.b) = N
\* deviations of the sums from their means, against seven standard errors; c is the standard
\* deviation of one summand, p (millionths) the probability of a rounded residual beyond 1, 2, 3
\* deviations
Within(x, c) == Abs(x) <= 7 * R.root * c
Beyond(t, p, c) == Abs(t - ((N \div 1000) * p) \div 1000) <= (7 * R.root * c) \div 1000 + 1
Plausible ==
  /\ Within(acc.sum, 100)
  /\ Within(acc.sq, 14143)
  /\ Beyond(acc.t1, 314897, 465) /\ Beyond(acc.t2, 44963, 208) /\ Beyond(acc.t3, 2656, 52)
  /\ Within(acc.sig, 100)
  /\ Within(acc.lag, 100)
  /\ Within(acc.oth, 100)
  /\ Within(acc.pos, 1)
  /\ \A t \in {acc.sqz, acc.sqn, acc.sqo, acc.sqh} : Within(t, 14143)

Exact == \A i \in 1..N : R.a[i] = R.in[i] /\ R.b[i] = R.in[i]

Init == r \in 1..Len(Runs) /\ k = 0 /\ acc = Zero /\ verdict = "run"
No(w) == PrintT(<<"REJECT", R.id, k, w>>) /\ verdict' = "rejected" /\ UNCHANGED <<r, k, acc>>
Bad == verdict = "run" /\ k = 0 /\ ~Whole /\ No("panic or wrong number of samples")
Silent == /\ verdict = "run" /\ k = 0 /\ Whole /\ R.sg = 0
          /\ IF Exact THEN verdict' = "end" /\ UNCHANGED <<r, k, acc>> ELSE No("not the identity")
Read == /\ verdict = "run" /\ Whole /\ R.sg > 0 /\ k < N
        /\ LET hi == IF k + Chunk > N THEN N ELSE k + Chunk IN
           k' = hi /\ acc' = Fold(acc, k + 1, hi)
        /\ UNCHANGED <<r, verdict>>
Judge == /\ verdict = "run" /\ Whole /\ R.sg > 0 /\ k = N
         /\ IF Plausible THEN verdict' = "end" /\ UNCHANGED <<r, k, acc>>
            ELSE No("not independent zero-mean Gaussian noise of that deviation")
Accept == verdict = "end" /\ PrintT(<<"ACCEPT", R.id, k>>) /\ verdict' = "accepted" /\ UNCHANGED <<r, k, acc>>
Next == Bad \/ Silent \/ Read \/ Judge \/ Accept
Spec == Init /\ [][Next]_vars
TypeOK == k \in 0..N
=============================================================================
