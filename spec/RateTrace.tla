----------------------------- MODULE RateTrace -----------------------------
(***************************************************************************)
(* Construction of transmitters and receivers: a run R is the log of one    *)
(* attempt.                                                                 *)
(*   spec "rates";  chk  which conditions apply: "carrier", "chips",        *)
(*   "ofdm" (rate ratio only);  fs, sr;  fn/fd the highest frequency;       *)
(*   chips  key length;  ev  the log;  n  expected outputs (-1: not stated) *)
(* The endpoint is constructed or refused in its first event; a refused one *)
(* consumed nothing, a constructed one never fails.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, e, got, verdict
vars == <<r, e, got, verdict>>
R == Runs[r]
Ev == R.ev[e]

Divides(a, b) == a > 0 /\ b % a = 0
CarrierOK == 2 * R.fn <= R.fs * R.fd
ChipsOK == 2 * R.chips * R.sr <= R.fs /\ Divides(R.sr * R.chips, R.fs)
Valid == /\ Divides(R.sr, R.fs)
         /\ R.chk \in {"carrier", "chips"} => CarrierOK
         /\ R.chk = "chips" => ChipsOK

Init == r \in 1..Len(Runs) /\ e = 1 /\ got = 0 /\ verdict = "idle"
No(w) == PrintT(<<"REJECT", R.id, e, w>>) /\ verdict' = "rejected" /\ UNCHANGED <<r, e, got>>
Construct == /\ verdict = "idle" /\ Valid
             /\ IF R.ev # <<>> /\ Ev.t = "new" /\ Ev.c = 0
                THEN verdict' = "run" /\ e' = 2 /\ UNCHANGED <<r, got>>
                ELSE No(IF Ev.t = "panic" THEN "refused a valid configuration" ELSE "consumed input before the first pull")
Refuse == /\ verdict = "idle" /\ ~Valid
          /\ IF Len(R.ev) = 1 /\ Ev.t = "panic" /\ Ev.c = 0
             THEN verdict' = "end" /\ UNCHANGED <<r, e, got>>
             ELSE No("accepted an impossible configuration")
Work == /\ verdict = "run" /\ e <= Len(R.ev)
        /\ IF Ev.t # "panic" THEN e' = e + 1 /\ got' = got + Ev.n /\ UNCHANGED <<r, verdict>>
           ELSE No("failed after construction")
Finish == /\ verdict = "run" /\ e > Len(R.ev)
          /\ IF R.n = -1 \/ got = R.n THEN verdict' = "end" /\ UNCHANGED <<r, e, got>>
             ELSE No("wrong number of outputs")
Accept == verdict = "end" /\ PrintT(<<"ACCEPT", R.id, got>>) /\ verdict' = "accepted" /\ UNCHANGED <<r, e, got>>
Next == Construct \/ Refuse \/ Work \/ Finish \/ Accept
Spec == Init /\ [][Next]_vars
TypeOK == got >= 0 /\ e \in 1..Len(R.ev) + 1
=============================================================================
