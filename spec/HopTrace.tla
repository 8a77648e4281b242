------------------------------ MODULE HopTrace ------------------------------
(***************************************************************************)
(* Trace validation of everything that hops.  A run R:                     *)
(*   kind  table | fhbpsk | css | fod       g  band, fs, sr                *)
(*   msg   bits sent (table, fod: one dummy entry per hop)                 *)
(*   base  the unhopped baseband samples (fod)                             *)
(*   out   everything the transmitter (or the table) produced              *)
(*   rxin, amp, rxout   a foreign signal fed to the receiver with the same *)
(*         parameters and its decisions (may be shorter than out, or empty)*)
(* One step explains one hop: some channel left in the epoch must account  *)
(* both for the transmitted symbol and for the receiver's decision.        *)
(* A run is accepted if some choice of channels explains all of it.        *)
(***************************************************************************)
EXTENDS Hop, TLC, TLCExt, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, s, rem, verdict
vars == <<r, s, rem, verdict>>
R == Runs[r]
N == Len(R.msg)

Lengths ==
  /\ ~R.panic
  /\ Len(R.out) = N * SymLen(R.kind, R.g)
  /\ R.kind = "fod" => Len(R.base) = N
  /\ R.rxin # <<>> => Len(R.rxout) = Len(R.rxin) \div Sps(R.g)

Match(k) ==
  /\ SymMatch(R.kind, R.g, LAMBDA i : R.msg[i + 1], LAMBDA i : R.base[i + 1], LAMBDA i : R.out[i + 1], s, k)
  /\ s < Len(R.rxout) => Decides(R.rxout[s + 1], HopCorr(R.g, LAMBDA i : R.rxin[i + 1], s, k), CorrTol(R.g, R.amp))

Init == /\ r \in 1..Len(Runs) /\ s = 0 /\ rem = Channels(R.g)
        /\ verdict = IF R.rxin # <<>> /\ Len(R.rxin) \div Sps(R.g) > N THEN "malformed" ELSE "run"

Hop == /\ verdict = "run" /\ Lengths /\ s < N
       /\ \E k \in rem : Match(k) /\ rem' = HopTake(R.g, rem, k)
       /\ s' = s + 1 /\ UNCHANGED <<r, verdict>>
Reject == /\ verdict = "run"
          /\ IF Lengths THEN s < N /\ \A k \in rem : ~Match(k) ELSE s = 0
          /\ PrintT(<<"REJECT", R.id, s, IF ~Lengths THEN "panic or wrong length"
                      ELSE IF \E k \in Channels(R.g) : Match(k) THEN "channel already used in this epoch"
                      ELSE "no channel explains the symbol">>)
          /\ verdict' = "rejected" /\ UNCHANGED <<r, s, rem>>
Accept == /\ verdict = "run" /\ Lengths /\ s = N
          /\ PrintT(<<"ACCEPT", R.id, s>>)
          /\ verdict' = "accepted" /\ UNCHANGED <<r, s, rem>>

Next == Hop \/ Reject \/ Accept
Spec == Init /\ [][Next]_vars
\* between epochs nothing is left over: the number of channels left is tied to the hop count
EpochInv == rem # {} /\ rem \subseteq Channels(R.g) /\ Cardinality(rem) = R.g.nf - (s % R.g.nf)
=============================================================================
