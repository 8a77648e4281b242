------------------------------ MODULE MC_Fm ------------------------------
(***************************************************************************)
(* The FM-FSK link of the specification: every carrier of k/20 cycles a     *)
(* symbol and every symbol length up to MaxSps the guard of "fm_link"       *)
(* admits, every message of Syms bits and every start phase that brings.    *)
(* Checked: the transmitted tone has the larger energy at its own           *)
(* frequency, by more than the tolerance of the received decision.          *)
(***************************************************************************)
EXTENDS Blocks
CONSTANTS MaxSps, Syms
VARIABLES g, msg, s
vars == <<g, msg, s>>
Run(x) == [spec |-> "fm_link", kind |-> "fm", g |-> g, in |-> x, cyc |-> FALSE, amp |-> 10000]
Init == /\ g \in {[fs |-> n, sr |-> 1, fn |-> 20 * k, fd |-> 1] : n \in 41..MaxSps, k \in 1..MaxSps \div 40}
        /\ 2 * g.fn < g.fs /\ msg \in [0..Syms - 1 -> {0, 1}] /\ s = 0
        /\ Guard(Run(<<0>>))
Next == s + 1 < Syms /\ s' = s + 1 /\ UNCHANGED <<g, msg>>
Spec == Init /\ [][Next]_vars
Sent == [i \in 1..Syms * Sps(g) |-> Tik(CarC(FmTone(g, msg[(i - 1) \div Sps(g)] = 1), i - 1))]
Right == LET f == FmMetric(Run(<<>> \o Sent), s) IN (f[1] > f[2]) = (msg[s] = 1) /\ (f[1] < -f[2]) = (msg[s] = 0)
=============================================================================
