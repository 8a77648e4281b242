----------------------------- MODULE MC_Chirp -----------------------------
(***************************************************************************)
(* The chirps of the specification: the two ways of writing one agree; it   *)
(* starts at phase 0; from a to a it is the tone a; and read backwards it   *)
(* is, up to a constant phase, the chirp from b to a (its differences of    *)
(* phase are those of the chirp from b to a, mirrored).                     *)
(***************************************************************************)
EXTENDS Blocks
CONSTANTS MaxN, D
VARIABLES n, a, b, i
vars == <<n, a, b, i>>
Init == n \in 1..MaxN /\ a \in 0..D \div 2 /\ b \in 0..D \div 2 /\ i = 0
Next == i + 1 < n /\ i' = i + 1 /\ UNCHANGED <<n, a, b>>
Spec == Init /\ [][Next]_vars
C == [n |-> n, D |-> D, a |-> a, b |-> b]
\* the same at sample rate n D, n D / n chirps a second: f = a n
Same == Near(ChirpOfLen(C, i), ChirpSample([fs |-> n * D, rn |-> D, rd |-> 1, f0 |-> a * n, f1 |-> b * n, fd |-> 1], i), 2)
Start == i = 0 => ChirpOfLen(C, i) = 1000000
Tone == a = b => Near(ChirpOfLen(C, i), Cos((i * a) % D, D), 2)
Phase(x, y, k) == (MulMod(k, (2 * n * x) % (2 * n * D), 2 * n * D) + MulMod((k * k) % (2 * n * D), (y - x) % (2 * n * D), 2 * n * D)) % (2 * n * D)
\* steps of phase: forward from sample k to k + 1, backward from n - k - 1 to n - k
StepF(x, y, k) == (Phase(x, y, k + 1) - Phase(x, y, k)) % (2 * n * D)
Mirror == StepF(a, b, i) = StepF(b, a, n - 1 - i)
Meaning == Near(ChirpOfLen(C, i), Cos(Phase(a, b, i), 2 * n * D), 1)
=============================================================================
