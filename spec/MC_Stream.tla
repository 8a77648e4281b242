----------------------------- MODULE MC_Stream -----------------------------
(***************************************************************************)
(* Two block processors in series, pulled by a consumer.  Stage 1 turns     *)
(* every I1 inputs into O1 elements, stage 2 every I2 of those into O2      *)
(* outputs; an incomplete last block yields nothing.  The consumer picks    *)
(* any sequence of single pulls, bursts and skips.                          *)
(* Checked: whatever the consumer does, the number of outputs is the        *)
(* composite denotation, consumption never exceeds what the outputs         *)
(* produced so far need (laziness), the end is final.                       *)
(* With Emit = TRUE every schedule of the given length is printed; the      *)
(* conformance checks replay them on the real chains.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Sizes, MaxN, Depth, Emit
VARIABLES I1, O1, I2, O2, N, c, b1, b2, pos, ended, hist
vars == <<I1, O1, I2, O2, N, c, b1, b2, pos, ended, hist>>
cfg == <<I1, O1, I2, O2, N>>
CeilDiv(a, b) == (a + b - 1) \div b
Alphabet == {<<"p", 1>>, <<"p", 2>>, <<"p", 5>>, <<"n", 0>>, <<"n", 1>>, <<"n", 3>>, <<"s", 2>>}
Takes(a) == IF a[1] = "n" THEN a[2] + 1 ELSE a[2]

\* one element out of stage 1: <<ok, c, b1>>
Get1(s) == IF s[2] > 0 THEN <<TRUE, s[1], s[2] - 1>>
           ELSE IF s[1] + I1 <= N THEN <<TRUE, s[1] + I1, O1 - 1>>
           ELSE <<FALSE, N, 0>>
RECURSIVE GetK(_, _)
GetK(s, k) == IF k = 0 THEN <<TRUE, s[1], s[2]>>
              ELSE LET g == Get1(s) IN IF ~g[1] THEN g ELSE GetK(<<g[2], g[3]>>, k - 1)
\* one output: <<ok, c, b1, b2>>
Get2(s) == IF s[3] > 0 THEN <<TRUE, s[1], s[2], s[3] - 1>>
           ELSE LET g == GetK(<<s[1], s[2]>>, I2) IN
                IF g[1] THEN <<TRUE, g[2], g[3], O2 - 1>> ELSE <<FALSE, g[2], g[3], 0>>
\* up to k outputs: <<number, c, b1, b2, ended>>
RECURSIVE Run(_, _)
Run(s, k) == IF k = 0 THEN <<s[4], s[1], s[2], s[3], FALSE>>
             ELSE LET g == Get2(s) IN
                  IF g[1] THEN Run(<<g[2], g[3], g[4], s[4] + 1>>, k - 1)
                  ELSE <<s[4], g[2], g[3], g[4], TRUE>>

Init == /\ I1 \in Sizes /\ O1 \in Sizes /\ I2 \in Sizes /\ O2 \in Sizes /\ N \in (IF Emit THEN {MaxN} ELSE 0..MaxN)
        /\ c = 0 /\ b1 = 0 /\ b2 = 0 /\ pos = 0 /\ ended = FALSE /\ hist = <<>>
Act(a) == /\ Len(hist) < Depth /\ (~ended \/ Emit)
          /\ LET z == Run(<<c, b1, b2, 0>>, Takes(a)) IN
             /\ pos' = pos + z[1] /\ c' = z[2] /\ b1' = z[3] /\ b2' = z[4] /\ ended' = (ended \/ z[5])
          /\ hist' = IF Emit THEN Append(hist, a) ELSE Append(hist, 0)
          /\ UNCHANGED cfg
Dump == Emit /\ Len(hist) = Depth /\ PrintT("SCHED " \o ToJson(hist)) /\ hist' = Append(hist, <<"a", 0>>) /\ UNCHANGED <<cfg, c, b1, b2, pos, ended>>
Next == (\E a \in Alphabet : Act(a)) \/ Dump
Spec == Init /\ [][Next]_vars

Total == O2 * ((O1 * (N \div I1)) \div I2)
Lazy == ~ended => c <= I1 * CeilDiv(I2 * CeilDiv(pos, O2), O1)
Eager == c >= 0 /\ (pos > 0 => c >= CeilDiv(I2 * CeilDiv(pos, O2), O1))
Denotes == pos <= Total /\ (ended => pos = Total)
Final == [][ended => pos' = pos]_vars
=============================================================================
