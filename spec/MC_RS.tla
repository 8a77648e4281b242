------------------------------- MODULE MC_RS -------------------------------
(***************************************************************************)
(* The frame code under damage: frames of every length (d data bytes), any  *)
(* two bytes p <= q, the first changed by e1, the second by every value in  *)
(* turn (e2 = 0: one byte only).  Checked in every state: an encoded frame  *)
(* has no syndrome, a damaged one has, and the decoder of the trace         *)
(* specification returns the data.  (The code is linear over the field:     *)
(* scaling both changes scales the syndromes, so few e1 stand for all.)     *)
(***************************************************************************)
EXTENDS RS
CONSTANTS Ds, E1s, Step
VARIABLES d, p, q, e1, e2
vars == <<d, p, q, e1, e2>>
Data == [i \in 1..d |-> (37 * i + 11 * d) % 256]
Init == /\ d \in Ds /\ p \in 1..d + ECC /\ q \in 1..d + ECC /\ p <= q /\ e1 \in E1s /\ e2 = 0
Next == e2 + Step <= 255 /\ e2' = e2 + Step /\ UNCHANGED <<d, p, q, e1>>
Spec == Init /\ [][Next]_vars
Sent == Encode(<<>> \o Data)
\* where p = q the two changes add up
Got == LET w == Flip(Sent, p, e1) IN IF e2 = 0 THEN w ELSE Flip(w, q, e2)
IsSent == Len(Sent) = d + ECC /\ IsCode(Sent)
Detects == (Got # Sent) => ~IsCode(Got)
Corrects == Correct(Got) = <<TRUE, Sent>>
=============================================================================
