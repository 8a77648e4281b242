---------------------------- MODULE ChaosTrace ------------------------------
(***************************************************************************)
(* Trace validation of the chaotic generators and the chaos modems.        *)
(*   orbit   map m from x0: wins, windows of consecutive outputs, the first *)
(*           starting with the first output; ext = <<lowest, highest,       *)
(*           number of non-finite values>> over a long stretch             *)
(*   csk     msg; ones, zeros: what the transmitter sends for the constant  *)
(*           messages; out: what it sends for msg;  rxin, rxout: a foreign  *)
(*           signal and the receiver's decisions                           *)
(*   dcsk    msg, out                                                      *)
(*   map     one application of the map: x, y                              *)
(*   start   construction with x0: refused (panic) or not                  *)
(* One step per output (per bit for the modems).                           *)
(***************************************************************************)
EXTENDS Chaos, TLC, TLCExt, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, w, k, verdict
vars == <<r, w, k, verdict>>
R == Runs[r]

Dec(b, m, tol) == IF m > tol THEN b = 1 ELSE IF m < -tol THEN b = 0 ELSE b \in {0, 1}
\* number of windows and of steps in window j
NWin == CASE R.kind = "orbit" -> Len(R.wins) [] OTHER -> 1
B == 64                            \* values judged per step
NVal(j) == CASE R.kind = "orbit" -> Len(R.wins[j])
             [] R.kind \in {"csk", "dcsk"} -> Len(R.msg)
             [] OTHER -> 1
NStep(j) == CeilDiv(NVal(j), B)
\* facts about the whole run
Whole ==
  CASE R.kind = "orbit" -> ~R.panic /\ (Trapped(R.m, R.x0) => R.ext[3] = 0 /\ InTrap(R.m, R.ext[1]) /\ InTrap(R.m, R.ext[2]))
                            /\ (Trapped(R.m, R.x0) /\ R.first => ExactStart(R.m, R.x0, R.wins[1]))
    [] R.kind = "csk" -> /\ ~R.panic
                         /\ Len(R.out) = Len(R.msg) /\ Len(R.ones) = Len(R.msg) /\ Len(R.zeros) = Len(R.msg)
                         /\ Len(R.rxout) = Len(R.rxin) /\ Len(R.rxin) <= Len(R.msg)
                         /\ ExactStart(Gen, GenOne, R.ones) /\ ExactStart(Gen, GenZero, R.zeros)
    [] R.kind = "dcsk" -> /\ ~R.panic /\ Len(R.out) = 2 * Len(R.msg)
                          /\ ExactStart(Gen, GenOne, <<>> \o [i \in 1..Len(R.msg) |-> R.out[2 * i - 1]])
    [] OTHER -> TRUE
\* value i (from 0) of window j
ValOK(j, i) ==
  CASE R.kind = "orbit" ->
         LET y == R.wins[j][i + 1] IN
         /\ Trapped(R.m, R.x0) => InTrap(R.m, y)
         /\ IF i > 0 THEN Follows(R.m, R.wins[j][i], y) ELSE j = 1 => Follows(R.m, R.x0, y)
    [] R.kind = "csk" ->
         LET a == R.ones[i + 1]  b == R.zeros[i + 1] IN
         /\ Follows(Gen, IF i = 0 THEN GenOne ELSE R.ones[i], a)
         /\ Follows(Gen, IF i = 0 THEN GenZero ELSE R.zeros[i], b)
         /\ Near(R.out[i + 1], IF R.msg[i + 1] = 1 THEN a ELSE b, 1)
         /\ i < Len(R.rxin) => Dec(R.rxout[i + 1], Abs(R.rxin[i + 1] - b) - Abs(R.rxin[i + 1] - a), 3)
    [] R.kind = "dcsk" ->
         LET a == R.out[2 * i + 1] IN
         /\ Follows(Gen, IF i = 0 THEN GenOne ELSE R.out[2 * i - 1], a)
         /\ Near(R.out[2 * i + 2], IF R.msg[i + 1] = 1 THEN a ELSE -a, 1)
    [] R.kind = "map" -> ~R.panic /\ Follows(R.m, R.x, R.y)
    [] R.kind = "start" -> R.panic = ~AcceptsX0(R.m, R.x0)
StepOK(j, i) == \A v \in i * B..Min2(i * B + B, NVal(j)) - 1 : ValOK(j, v)

Init == r \in 1..Len(Runs) /\ w = 1 /\ k = 0 /\ verdict = "run"
Done == w > NWin
\* the facts about the whole run are settled with the first step
Fine == ((w = 1 /\ k = 0) => Whole) /\ (k < NStep(w) => StepOK(w, k))
Emit == /\ verdict = "run" /\ ~Done /\ Fine
        /\ IF k < NStep(w) THEN k' = k + 1 /\ w' = w ELSE k' = 0 /\ w' = w + 1
        /\ UNCHANGED <<r, verdict>>
Reject == /\ verdict = "run" /\ (IF Done THEN NWin = 0 /\ ~Whole ELSE ~Fine)
          /\ PrintT(<<"REJECT", R.id, k, IF k > 0 \/ w > 1 \/ Whole THEN "not a step of the generator" ELSE "panic, wrong length or out of bounds">>)
          /\ verdict' = "rejected" /\ UNCHANGED <<r, w, k>>
Accept == /\ verdict = "run" /\ Done /\ (NWin = 0 => Whole)
          /\ PrintT(<<"ACCEPT", R.id, k>>)
          /\ verdict' = "accepted" /\ UNCHANGED <<r, w, k>>
Next == Emit \/ Reject \/ Accept
Spec == Init /\ [][Next]_vars
TypeOK == w \in 1..NWin + 1 /\ (~Done => k \in 0..NStep(w))
=============================================================================
