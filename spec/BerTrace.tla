------------------------------ MODULE BerTrace ------------------------------
(***************************************************************************)
(* Bit errors of a link over Gaussian noise.  A run R:                      *)
(*   kind, sps, sub   the modem, samples per symbol, subcarriers            *)
(*   num, den         the noise deviation as a rational                     *)
(*   n, root          number of bits = root * root                          *)
(*   in, a, b         the message and two receptions of it, 24 bits a word  *)
(* The optimum receiver of antipodal signals errs with probability          *)
(*   erfc(x) / 2, x = amplitude of the decision variable / (its deviation   *)
(*   times the square root of 2),                                           *)
(* independently from bit to bit.  The observer reads the log, counts what  *)
(* is listed below, and at the end compares with the binomial mean: within  *)
(* seven standard deviations.                                               *)
(***************************************************************************)
EXTENDS Num, ErfTable, TLC, TLCExt, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, k, acc, verdict
vars == <<r, k, acc, verdict>>
R == Runs[r]
Sq(x) == x * x
Root(x) == CHOOSE t \in 0..1000 : t * t = x

\* 65536 x for deviation 1
K == CASE R.kind \in {"bpsk", "qpsk", "cdma_bpsk", "cdma_qpsk"} -> 32768 * Root(R.sps)   \* sqrt(sps/2) / sqrt 2
       [] R.kind = "bb_bpsk" -> 46341                                                     \* 1 / sqrt 2
       [] R.kind = "bb_qpsk" -> 65536                                                     \* sqrt 2 / sqrt 2
       [] R.kind = "bb_ofdm" -> 65536 \div Root(R.sub)                 \* sqrt 2 / (sqrt sub sqrt 2)
       [] R.kind = "ofdm" -> (65536 * Root(R.sps \div 2)) \div Root(R.sub)
P == (100000000 - Erf(RDiv(K * R.den, R.num))) \div 2                  \* 10^-8
E1 == ((R.n \div 100) * (P \div 1000)) \div 1000                       \* expected errors
E2 == (E1 * (P \div 10000)) \div 10000                                 \* expected coincidences
Var == (E1 * (10000 - P \div 10000)) \div 10000

Words == 20                        \* words per step
Pow2 == [j \in 0..23 |-> 2 ^ j]
BitAt(s, i) == (s[i \div 24 + 1] \div Pow2[i % 24]) % 2
Zero == [e |-> 0, adj |-> 0, both |-> 0, one |-> 0, n1 |-> 0]
Step(A, lo, hi) ==
  LET I == lo..hi - 1
      Ea == {i \in I : BitAt(R.a, i) # BitAt(R.in, i)}
      Eb == {i \in Ea : BitAt(R.b, i) # BitAt(R.in, i)}
      T == {i \in I : BitAt(R.in, i) = 1}
  IN [e |-> A.e + Cardinality(Ea),
      adj |-> A.adj + Cardinality({i \in Ea : i > 0 /\ BitAt(R.a, i - 1) # BitAt(R.in, i - 1)}),
      both |-> A.both + Cardinality(Eb),
      one |-> A.one + Cardinality(Ea \cap T),
      n1 |-> A.n1 + Cardinality(T)]
Whole == ~R.panic /\ R.n = R.root * R.root /\ R.na = R.n /\ R.nb = R.n
Plausible ==
  /\ Sq(acc.e - E1) <= 49 * Var + 4 * (E1 \div 1000) + 100
  /\ Sq(acc.adj - E2) <= 98 * E2 + 100
  /\ Sq(acc.both - E2) <= 98 * E2 + 100
  /\ Sq(2 * acc.one - acc.e - ((2 * acc.n1 - R.n) * (P \div 10000)) \div 10000) <= 49 * E1 + 100

Init == r \in 1..Len(Runs) /\ k = 0 /\ acc = Zero /\ verdict = "run"
No(w) == PrintT(<<"REJECT", R.id, k, w>>) /\ verdict' = "rejected" /\ UNCHANGED <<r, k, acc>>
Bad == verdict = "run" /\ ~Whole /\ No("panic or wrong number of bits")
Read == /\ verdict = "run" /\ Whole /\ k < R.n
        /\ LET hi == Min2(R.n, k + 24 * Words) IN k' = hi /\ acc' = Step(acc, k, hi)
        /\ UNCHANGED <<r, verdict>>
Judge == /\ verdict = "run" /\ Whole /\ k = R.n
         /\ IF Plausible THEN verdict' = "end" /\ UNCHANGED <<r, k, acc>>
            ELSE No("errors are not those of the optimum receiver")
Accept == verdict = "end" /\ PrintT(<<"ACCEPT", R.id, k>>) /\ verdict' = "accepted" /\ UNCHANGED <<r, k, acc>>
Next == Bad \/ Read \/ Judge \/ Accept
Spec == Init /\ [][Next]_vars
TypeOK == k \in 0..R.n
\* no error is counted that was not made
Counted == acc.both <= acc.e /\ acc.adj <= acc.e /\ acc.one <= acc.e /\ acc.e <= k
=============================================================================
