------------------------------ MODULE FodTrace ------------------------------
(***************************************************************************)
(* Trace validation of FH-OFDM-DCSK transmitter and receiver, frame by     *)
(* frame.  R.msg bits sent, R.orbit the chaos orbit (micro), R.out what    *)
(* was transmitted (micro), R.rxin a foreign signal (tik) and R.rxout the  *)
(* receiver's decisions for it.  A frame is explained by a permutation     *)
(* that accounts for the transmitted spectrum and for the decisions.       *)
(***************************************************************************)
EXTENDS Fod, TLC, TLCExt, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, f, verdict
vars == <<r, f, verdict>>
R == Runs[r]
NF == Len(R.out) \div FrameLen
\* a foreign signal may also be given by its spectrum, line by line (the lines' strengths apart)
ByLine == "rxw" \in DOMAIN R
NR == IF ByLine THEN Len(R.rxw) \div NSub ELSE Len(R.rxin) \div FrameLen
Lengths ==
  /\ ~R.panic
  /\ Len(R.out) % FrameLen = 0 /\ NF \in Frames(Len(R.msg))
  /\ Len(R.orbit) >= NSub * NF
  /\ Len(R.rxout) = 7 * NR

Tol == 14       \* spectrum values are compared in units of 10^-5
Dec(b, m, tol) == IF m > tol THEN b = 1 ELSE IF m < -tol THEN b = 0 ELSE b \in {0, 1}
O(i) == R.out[FrameLen * f + i + 1]
O5(i) == <<RDiv(O(i)[1], 10), RDiv(O(i)[2], 10)>>
NearC(v, w, tol) == Near(v[1], w[1], tol) /\ Near(v[2], w[2], tol)
Prefix == \A i \in 0..Cp - 1 : NearC(O(i), O(NSub + i), 1)
\* the values of this frame and the lines they may be on
Spectrum == [i \in 0..NSub - 1 |-> Line(LAMBDA t : O5(Cp + t), i)]
Vals == [j \in 0..NSub - 1 |-> FrameVal(LAMBDA k : RDiv(R.orbit[k + 1], 10), LAMBDA k : R.msg[k + 1], Len(R.msg), f, j)]
RxLines == IF ByLine THEN [i \in 0..NSub - 1 |-> <<R.rxw[NSub * f + i + 1][1], R.rxw[NSub * f + i + 1][2]>>] ELSE
           [i \in 0..NSub - 1 |-> Line(LAMBDA t : R.rxin[FrameLen * f + Cp + t + 1], i)]
\* a permutation: line i holds value p[i]
Explained(Z, V, W) ==
  LET rx == f < NR
      inv(p, j) == CHOOSE i \in 0..NSub - 1 : p[i + 1] = j
      RxOK(p) == \A j \in 1..7 :
         LET m == RxMetric(W[inv(p, 0)], W[inv(p, j)]) IN Dec(R.rxout[7 * f + j], m[1], m[2])
      RECURSIVE Try(_, _)
      Try(p, left) ==
        IF left = {} THEN rx => RxOK(p)
        ELSE \E j \in left : /\ NearC(Z[Len(p)], <<V[j], 0>>, Tol)
                             /\ Try(Append(p, j), left \ {j})
  IN Try(<<>>, 0..NSub - 1)
FrameOK == Prefix /\ \E Z \in {Spectrum}, V \in {Vals}, W \in {IF f < NR THEN RxLines ELSE <<>>} : Explained(Z, V, W)
Init == r \in 1..Len(Runs) /\ f = 0 /\ verdict = "run"
Frame == /\ verdict = "run" /\ Lengths /\ f < NF /\ FrameOK
         /\ f' = f + 1 /\ UNCHANGED <<r, verdict>>
Reject == /\ verdict = "run" /\ (IF Lengths THEN f < NF /\ ~FrameOK ELSE TRUE)
          /\ PrintT(<<"REJECT", R.id, f, IF ~Lengths THEN "panic or wrong length" ELSE IF ~Prefix THEN "wrong cyclic prefix"
                      ELSE "no permutation explains the frame">>)
          /\ verdict' = "rejected" /\ UNCHANGED <<r, f>>
Accept == /\ verdict = "run" /\ Lengths /\ f = NF
          /\ PrintT(<<"ACCEPT", R.id, f>>) /\ verdict' = "accepted" /\ UNCHANGED <<r, f>>
Next == Frame \/ Reject \/ Accept
Spec == Init /\ [][Next]_vars
TypeOK == f <= NF
=============================================================================
