------------------------------ MODULE MC_Link ------------------------------
(***************************************************************************)
(* Coherent PSK link, transmitter and receiver denotations put together:    *)
(* every carrier phase step a/B of a turn per sample with B <= MaxB, every  *)
(* symbol length up to MaxN samples, every message of Syms symbols, and an  *)
(* adversary who moves each sample by up to Amp (tik) in the direction that *)
(* hurts one of the two decisions most.  Checked: where the guard LinkOK of *)
(* the trace specification promises separation, every decision is right.    *)
(***************************************************************************)
EXTENDS Blocks
CONSTANTS MaxB, MaxN, Syms, Amps
VARIABLES g, kind, msg, amp, aim, s
vars == <<g, kind, msg, amp, aim, s>>
Configs == {[fs |-> n * B, sr |-> B, fn |-> a * n, fd |-> 1, key |-> <<1>>] : n \in 1..MaxN, B \in 1..MaxB, a \in 0..MaxB}
NB == IF kind = "qpsk" THEN 2 * Syms ELSE Syms
Init == /\ kind \in {"bpsk", "qpsk"} /\ g \in {c \in Configs : 2 * c.fn <= c.fs}
        /\ msg \in [0..NB - 1 -> {0, 1}] /\ amp \in Amps /\ aim \in {"none", "cos", "sin"} /\ s = 0
        /\ (amp = 0) = (aim = "none") /\ (kind = "bpsk" => aim # "sin")
        /\ LinkOK(g, kind, NB, amp)
Next == s + 1 < Syms /\ s' = s + 1 /\ UNCHANGED <<g, kind, msg, amp, aim>>
Spec == Init /\ [][Next]_vars
Tx(i) == Tik(IF kind = "bpsk" THEN BpskSample(g, LAMBDA k : msg[k], i) ELSE QpskSample(g, LAMBDA k : msg[k], i))
Hurt(i) == CASE aim = "none" -> 0
             [] aim = "cos" -> -Nrz(msg[IF kind = "bpsk" THEN i \div Sps(g) ELSE 2 * (i \div Sps(g))]) * Sgn(CarC(g, i)) * amp
             [] OTHER -> Nrz(msg[2 * (i \div Sps(g)) + 1]) * Sgn(CarS(g, i)) * amp
X(i) == Tx(i) + Hurt(i)
Right == IF kind = "bpsk" THEN (CorrC(g, X, s) > 0) = (msg[s] = 1)
         ELSE (CorrC(g, X, s) > 0) = (msg[2 * s] = 1) /\ (CorrS(g, X, s) > 0) = (msg[2 * s + 1] = 1)
\* turning the whole signal around turns every decision around
Mirrored == kind = "bpsk" => (CorrC(g, LAMBDA i : -X(i), s) < 0) = (CorrC(g, X, s) > 0)
=============================================================================
