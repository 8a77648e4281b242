----------------------------- MODULE MC_Band -----------------------------
(***************************************************************************)
(* The two denotations of the block band-pass, and the band-pass algebra:   *)
(* every block length up to MaxN, every band of bins lo..hi, every tone b   *)
(* in every of eight phases.  Checked: filtering (kernel form, BpOut) a     *)
(* tone leaves it if its bin is in the band and nothing otherwise (tone     *)
(* form, BpTone); filtering twice is filtering once; a band and the two     *)
(* bands beside it add up to the input.  One output index per state.        *)
(***************************************************************************)
EXTENDS Blocks
CONSTANTS Ns
VARIABLES N, lo, hi, b, p, i
vars == <<N, lo, hi, b, p, i>>
G(l, h) == [N |-> N, fs |-> N, lon |-> l, lod |-> 1, hin |-> h, hid |-> 1, tones |-> <<[b |-> b, p |-> p, a |-> 10000]>>]
Init == /\ N \in Ns /\ lo \in 0..N \div 2 /\ hi \in lo..N \div 2 /\ b \in 0..N \div 2 /\ p \in 0..7 /\ i = 0
Next == i + 1 < N /\ i' = i + 1 /\ UNCHANGED <<N, lo, hi, b, p>>
Spec == Init /\ [][Next]_vars
X == [t \in 0..N - 1 |-> ToneVal(G(lo, hi), [b |-> b, p |-> p, a |-> 10000], t)]
In0 == [g |-> G(lo, hi), in |-> [t \in 1..N |-> X[t - 1]], cyc |-> FALSE, spec |-> "bandpass"]
Out(R) == BpOut(R, BpKernel(R.g), i)
Tones == Near(Out(In0), BpTone(In0, i), 2 * N + 20)
Twice == LET A == BpKernel(In0.g)
             Y == [t \in 1..N |-> BpOut(In0, A, t - 1)]
         IN Near(BpOut([In0 EXCEPT !.in = Y], A, i), Y[i + 1], 2 * N + 20)
Parts == LET below == IF lo = 0 THEN 0 ELSE Out([In0 EXCEPT !.g = G(0, lo - 1)])
             above == IF hi = N \div 2 THEN 0 ELSE Out([In0 EXCEPT !.g = G(hi + 1, N \div 2)])
         IN Near(below + Out(In0) + above, X[i], 3 * (2 * N + 20))
=============================================================================
