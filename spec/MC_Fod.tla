------------------------------- MODULE MC_Fod -------------------------------
(***************************************************************************)
(* The frame scheme with K values per frame (one reference, K-1 data),     *)
(* every permutation, every message of up to two frames, every sign of the *)
(* chaos values.  The receiver undoes its own copy of the permutation and  *)
(* correlates with the reference.                                          *)
(* Same = TRUE: data are carried by the reference value itself (what a     *)
(* differential scheme needs); FALSE: by further orbit values, as the code *)
(* does.  RoundTrip holds with TRUE and fails with FALSE: the known        *)
(* finding of C12 is a property of the design, not of one input.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS K, Same, MaxLen
VARIABLES msg, chaos, perm, f, got
vars == <<msg, chaos, perm, f, got>>
Perms == {p \in [1..K -> 0..K-1] : \A i, j \in 1..K : i # j => p[i] # p[j]}
Msgs == UNION {[1..n -> {0, 1}] : n \in 0..MaxLen}
D == K - 1
NFrames == (Len(msg) + D - 1) \div D
Init == /\ msg \in Msgs /\ f = 0 /\ got = <<>>
        /\ chaos \in [0..K - 1 -> {-2, 1}] /\ perm \in Perms
Nrz(b) == IF b = 1 THEN 1 ELSE -1
Val(j) == IF j = 0 THEN chaos[0]
          ELSE LET b == f * D + j IN
               IF b <= Len(msg) THEN Nrz(msg[b]) * (IF Same THEN chaos[0] ELSE chaos[j]) ELSE 0
OnAir == [i \in 1..K |-> Val(perm[i])]                 \* the spectrum, line by line
Undone == [j \in 0..K - 1 |-> OnAir[CHOOSE i \in 1..K : perm[i] = j]]
Frame == /\ f < NFrames
         /\ got' = got \o [j \in 1..D |-> IF Undone[0] * Undone[j] >= 0 THEN 1 ELSE 0]
         /\ f' = f + 1
         /\ chaos' \in [0..K - 1 -> {-2, 1}] /\ perm' \in Perms /\ UNCHANGED msg
Spec == Init /\ [][Frame]_vars
\* every value of the frame is transmitted exactly once
OncePerFrame == f < NFrames => \A j \in 0..K - 1 : Cardinality({i \in 1..K : perm[i] = j}) = 1 /\ Undone[j] = Val(j)
Count == Len(got) = f * D
RoundTrip == \A i \in 1..Len(got) : i <= Len(msg) => got[i] = msg[i]
=============================================================================
