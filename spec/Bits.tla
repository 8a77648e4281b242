-------------------------------- MODULE Bits --------------------------------
(* Bits are 0/1, bytes 0..255 with bit 0 first; long bit strings are logged   *)
(* packed 24 bits to a word (also least significant first).                   *)
EXTENDS Num

Nrz(b) == IF b = 1 THEN 1 ELSE -1
Xor(a, b) == IF a = b THEN 0 ELSE 1

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
P2Seq == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,131072,262144,524288,1048576,2097152,4194304,8388608,16777216,33554432,67108864,134217728,268435456,536870912,1073741824>>
P2Tab == [k \in 0..30 |-> P2Seq[k + 1]]
BitOf(w, k) == (w \div P2Seq[k + 1]) % 2

\* byte number k (from 0) of a bit sequence, missing bits are 0
ByteAt(bits, k) ==
  LET B(j) == IF 8 * k + j + 1 <= Len(bits) THEN bits[8 * k + j + 1] ELSE 0
  IN B(0) + 2*B(1) + 4*B(2) + 8*B(3) + 16*B(4) + 32*B(5) + 64*B(6) + 128*B(7)
\* (<<>> \o f: a sequence evaluated once; TLC evaluates a function anew at every application)
Bytes(bits) == <<>> \o [k \in 1..CeilDiv(Len(bits), 8) |-> ByteAt(bits, k - 1)]
BitsOfBytes(bs) == <<>> \o [i \in 1..8 * Len(bs) |-> BitOf(bs[(i - 1) \div 8 + 1], (i - 1) % 8)]

\* the first m bits of a packed string
PackedPrefix(w, m) ==
  [k \in 1..CeilDiv(m, 24) |->
     IF 24 * k <= m THEN w[k] ELSE w[k] % P2Tab[m % 24]]
Pack(bits) ==
  LET W(k) == LET RECURSIVE go(_, _)
                  go(j, acc) == IF j > 23 \/ 24 * (k - 1) + j + 1 > Len(bits) THEN acc
                                ELSE go(j + 1, acc + bits[24 * (k - 1) + j + 1] * P2Tab[j])
              IN go(0, 0)
  IN [k \in 1..CeilDiv(Len(bits), 24) |-> W(k)]
=============================================================================
