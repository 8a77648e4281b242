------------------------------- MODULE MC_Hop -------------------------------
(***************************************************************************)
(* Design check of the hop table algorithm and of a hopped link.           *)
(* Transmitter and receiver own a table each (contents, index), advanced   *)
(* once per symbol as src/fh.rs does: at index 0 the table is reshuffled.  *)
(* Both tables draw their shuffles from equally seeded generators: the     *)
(* e-th shuffle of either is the same (arbitrary) permutation.             *)
(* The receiver may lag behind the transmitter by up to Lag symbols.       *)
(* Checked: each table refines the epoch machine of Hop.tla, the receiver  *)
(* demodulates symbol i on the channel on which it was sent.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxNF, MaxEpochs, Lag
VARIABLES nf, shuffles, tx, rx, sent, got
vars == <<nf, shuffles, tx, rx, sent, got>>

Chan(n) == 0..n - 1
Perms(n) == {f \in [1..n -> Chan(n)] : \A i, j \in 1..n : i # j => f[i] # f[j]}
\* apply permutation p to a table
Shuffled(t, p) == [i \in 1..Len(t) |-> t[p[i] + 1]]

Init == /\ nf \in 1..MaxNF /\ shuffles = <<>> /\ sent = <<>> /\ got = <<>>
        /\ tx = [tab |-> [i \in 1..nf |-> i - 1], idx |-> 0, e |-> 0]
        /\ rx = tx

\* HopTable::next: the state after it and the channel returned; p is the next permutation
NextHop(t, p) ==
  IF t.idx = 0 THEN LET tab == Shuffled(t.tab, p) IN
                    [st |-> [tab |-> tab, idx |-> 1 % nf, e |-> t.e + 1], ch |-> tab[1]]
  ELSE IF t.idx = nf - 1 THEN [st |-> [t EXCEPT !.idx = 0], ch |-> t.tab[nf]]
  ELSE [st |-> [t EXCEPT !.idx = t.idx + 1], ch |-> t.tab[t.idx + 1]]

NeedsShuffle(t) == t.idx = 0
Send == /\ Len(sent) < MaxEpochs * nf /\ Len(sent) - Len(got) < Lag
        /\ IF NeedsShuffle(tx) /\ tx.e = Len(shuffles)
           THEN \E p \in Perms(nf) : /\ shuffles' = Append(shuffles, p)
                                     /\ tx' = NextHop(tx, p).st /\ sent' = Append(sent, NextHop(tx, p).ch)
           ELSE LET p == IF NeedsShuffle(tx) THEN shuffles[tx.e + 1] ELSE <<>> IN
                /\ tx' = NextHop(tx, p).st /\ sent' = Append(sent, NextHop(tx, p).ch) /\ UNCHANGED shuffles
        /\ UNCHANGED <<nf, rx, got>>
Recv == /\ Len(got) < Len(sent)
        /\ LET p == IF NeedsShuffle(rx) THEN shuffles[rx.e + 1] ELSE <<>> IN
           /\ rx' = NextHop(rx, p).st /\ got' = Append(got, NextHop(rx, p).ch)
        /\ UNCHANGED <<nf, shuffles, tx, sent>>
Next == Send \/ Recv
Spec == Init /\ [][Next]_vars

\* channels left in the current epoch after a sequence of hops
Rem(q) == LET n == (Len(q) \div nf) * nf IN Chan(nf) \ {q[i] : i \in n + 1..Len(q)}
EachOncePerEpoch(q) ==
  \A i, j \in 1..Len(q) : i # j /\ (i - 1) \div nf = (j - 1) \div nf => q[i] # q[j]
Refines == EachOncePerEpoch(sent) /\ EachOncePerEpoch(got) /\ \A i \in 1..Len(sent) : sent[i] \in Chan(nf)
InStep == \A i \in 1..Len(got) : got[i] = sent[i]
IdxInRange == tx.idx \in Chan(nf) /\ tx.idx = Len(sent) % nf /\ rx.idx = Len(got) % nf
EpochCount == tx.e = (Len(sent) + nf - 1) \div nf
=============================================================================
