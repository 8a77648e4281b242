------------------------------ MODULE MC_Ofdm ------------------------------
(***************************************************************************)
(* The OFDM grid for every number of subcarriers and pilots up to MaxN: the *)
(* data symbols sit on different frequencies, none on the middle one, the   *)
(* edges stay free; the prefix repeats the end of the block; and receiver   *)
(* and transmitter denotations are inverse on every unit vector.            *)
(***************************************************************************)
EXTENDS Ofdm
CONSTANT MaxN
VARIABLES N, P, j
vars == <<N, P, j>>
D == DataCount(N, P)
Init == N \in 2..MaxN /\ P \in 1..MaxN /\ P < N /\ j = 0
Next == j + 1 < D /\ j' = j + 1 /\ UNCHANGED <<N, P>>
Spec == Init /\ [][Next]_vars
Used == {FreqNo(N, P, k) : k \in 0..D - 1}
Placed == Cardinality(Used) = D /\ Used \subseteq 1..N - 1
\* the free lines other than the middle one are the lowest and the highest
Edges == {Carrier(N, P, k) : k \in 0..D - 1} = {c \in Front(P)..N - 1 - Back(P) : c # Mid(N)}
                                               \cup (IF Front(P) > Mid(N) THEN {} ELSE {})
Unit(q) == IF q = j THEN <<1000, 0>> ELSE <<0, 0>>
Time(t) == OfdmTime(N, P, D, Unit, t)
T4(t) == LET v == Time(t) IN <<Tik(v[1]), Tik(v[2])>>
Inverse == \A k \in 0..D - 1 : LET b == OfdmBin(N, P, T4, k) IN
              Near(b[1], IF k = j THEN 10000 ELSE 0, 3 * N + 10) /\ Near(b[2], 0, 3 * N + 10)
Prefix == \A i \in 0..CP(N) - 1 : OfdmSample(N, P, D, Unit, i) = OfdmSample(N, P, D, Unit, i + N)
=============================================================================
