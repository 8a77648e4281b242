---------------------------- MODULE MC_Adaptor ----------------------------
(***************************************************************************)
(* The stream adaptors as machines: a consumer pulls one element at a time; *)
(* the machine reads inputs one by one into a block, turns a full block     *)
(* into a queue of outputs (with a memory carried from block to block) and  *)
(* at the end of the input turns what is left of a block into some more.    *)
(* Every input up to MaxN elements over a small alphabet, every block size  *)
(* and every kind.  Checked against what the trace specification demands    *)
(* of the code (Blocks): every output (FirstBad), their number (Lens), and  *)
(* that no input is read before an output needs it (Need).                  *)
(***************************************************************************)
EXTENDS Blocks
CONSTANTS MaxN, MaxB
Vals == {-1, 2}
VARIABLES R, i, blk, mem, queue, out, wanted, ended
vars == <<R, i, blk, mem, queue, out, wanted, ended>>

Seqs(V, n) == UNION {[1..k -> V] : k \in 0..n}
Codes == {<<1>>, <<1, 0>>, <<1, 1, 0>>, <<0, 1, 1, 0>>}
Runs ==
  {[spec |-> s, g |-> [n |-> n], in |-> x, cyc |-> FALSE] :
      s \in {"chunks", "wchunks", "inflate", "take_every", "intdump"}, n \in 1..MaxB, x \in Seqs(Vals, MaxN)}
  \cup {[spec |-> "integrate", g |-> [n |-> 1], in |-> x, cyc |-> FALSE] : x \in Seqs(Vals, MaxN)}
  \cup {[spec |-> "scale", g |-> [k |-> k], in |-> x, cyc |-> FALSE] : k \in {-1, 0, 3}, x \in Seqs(Vals, MaxN)}
  \cup {[spec |-> "convolve", g |-> [h |-> h], in |-> x, cyc |-> FALSE] :
           h \in UNION {[1..k -> {-1, 2}] : k \in 1..MaxB}, x \in Seqs(Vals, MaxN)}
  \cup {[spec |-> s, g |-> [key |-> c], in |-> x, cyc |-> FALSE] :
           s \in {"tx_bb_cdma", "rx_bb_cdma"}, c \in Codes, x \in Seqs({0, 1}, MaxN + 1)}
  \cup {[spec |-> "bits2bytes", g |-> [n |-> 8], in |-> x, cyc |-> FALSE] : x \in Seqs({0, 1}, MaxN + 5)}
  \cup {[spec |-> "bytes2bits", g |-> [n |-> 1], in |-> x, cyc |-> FALSE] : x \in Seqs({0, 1, 77, 128, 255}, 2)}

Kind == R.spec
BlkLen == CASE Kind \in {"chunks", "wchunks", "take_every", "intdump"} -> R.g.n
            [] Kind = "rx_bb_cdma" -> Len(R.g.key)
            [] Kind = "bits2bytes" -> 8
            [] OTHER -> 1
RECURSIVE PackB(_), SumS(_), Agree(_, _)
PackB(b) == IF b = <<>> THEN 0 ELSE PackB(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)] * P2Tab[Len(b) - 1]
SumS(b) == IF b = <<>> THEN 0 ELSE b[1] + SumS(SubSeq(b, 2, Len(b)))
Agree(b, k) == IF b = <<>> THEN 0 ELSE (IF b[1] # k[1] THEN 1 ELSE -1) + Agree(SubSeq(b, 2, Len(b)), SubSeq(k, 2, Len(k)))
Pad(b, n) == b \o [j \in 1..n - Len(b) |-> 0]
\* delay line of the convolution: newest first
Fir(m, h) == SumN(Len(h), LAMBDA j : IF j < Len(m) THEN h[j + 1] * m[j + 1] ELSE 0)
\* <<memory, outputs>> of a full block
Step(m, b) ==
  CASE Kind = "chunks" -> <<m, <<b>>>>
    [] Kind = "wchunks" -> <<m, <<b>>>>
    [] Kind = "inflate" -> <<m, [j \in 1..R.g.n |-> b[1]]>>
    [] Kind = "take_every" -> <<m, <<>>>>           \* the first of a block left as soon as it was read
    [] Kind = "intdump" -> <<m, <<SumS(b)>>>>
    [] Kind = "integrate" -> <<<<m[1] + b[1]>>, <<m[1] + b[1]>>>>
    [] Kind = "scale" -> <<m, <<R.g.k * b[1]>>>>
    [] Kind = "convolve" -> LET d == <<b[1]>> \o m IN <<d, <<Fir(d, R.g.h)>>>>
    [] Kind = "tx_bb_cdma" -> <<m, [j \in 1..Len(R.g.key) |-> Xor(b[1], R.g.key[j])]>>
    [] Kind = "rx_bb_cdma" -> <<m, <<IF Agree(b, R.g.key) > 0 THEN 1 ELSE 0>>>>
    [] Kind = "bits2bytes" -> <<m, <<PackB(b)>>>>
    [] OTHER -> <<m, [j \in 1..8 |-> BitOf(b[1], j - 1)]>>
\* outputs of what is left at the end
Rest(m, b) ==
  CASE Kind = "chunks" -> IF b = <<>> THEN <<>> ELSE <<b>>
    [] Kind = "wchunks" -> IF b = <<>> THEN <<>> ELSE <<Pad(b, R.g.n)>>
    [] Kind = "bits2bytes" -> IF b = <<>> THEN <<>> ELSE <<PackB(b)>>
    [] Kind = "convolve" -> IF m = <<>> THEN <<>> ELSE
          [j \in 1..Len(R.g.h) - 1 |-> Fir([t \in 1..j |-> 0] \o m, R.g.h)]
    [] OTHER -> <<>>

Init == /\ R \in Runs /\ i = 0 /\ blk = <<>> /\ mem = (IF R.spec = "integrate" THEN <<0>> ELSE <<>>)
        /\ queue = <<>> /\ out = <<>> /\ wanted = FALSE /\ ended = "no"
Pull == ~wanted /\ ended # "told" /\ wanted' = TRUE /\ UNCHANGED <<R, i, blk, mem, queue, out, ended>>
Give == /\ wanted /\ queue # <<>> /\ out' = Append(out, queue[1]) /\ queue' = SubSeq(queue, 2, Len(queue)) /\ wanted' = FALSE
        /\ UNCHANGED <<R, i, blk, mem, ended>>
Read == /\ wanted /\ queue = <<>> /\ i < Len(R.in) /\ i' = i + 1
        /\ LET b == Append(blk, R.in[i + 1])
               z == IF Len(b) = BlkLen THEN Step(mem, b) ELSE <<mem, <<>>>>
               first == IF Kind = "take_every" /\ Len(b) = 1 THEN <<b[1]>> ELSE <<>> IN
           /\ blk' = (IF Len(b) = BlkLen THEN <<>> ELSE b)
           /\ mem' = z[1] /\ queue' = first \o z[2]
        /\ UNCHANGED <<R, out, wanted, ended>>
Finish == /\ wanted /\ queue = <<>> /\ i = Len(R.in) /\ ended = "no"
          /\ ended' = "flushed" /\ queue' = Rest(mem, blk) /\ blk' = <<>> /\ UNCHANGED <<R, i, mem, out, wanted>>
Tell == /\ wanted /\ queue = <<>> /\ ended = "flushed" /\ ended' = "told" /\ wanted' = FALSE
        /\ UNCHANGED <<R, i, blk, mem, queue, out>>
Next == Pull \/ Give \/ Read \/ Finish \/ Tell
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == FirstBad(R, <<>>, 0, Len(out), LAMBDA j : out[j + 1]) = -1
Count == LET L == Lens(R, <<>>) IN Len(out) <= L[2] /\ (ended = "told" => Len(out) \in L[1]..L[2])
Asked == IF wanted \/ ended = "told" THEN Len(out) + 1 ELSE Len(out)
Lazy == i <= (IF Asked = 0 THEN 0 ELSE Need(R, Asked))
Ends == <>(ended = "told")
=============================================================================
