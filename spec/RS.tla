--------------------------------- MODULE RS ---------------------------------
(***************************************************************************)
(* The outer code of the coded link: systematic Reed-Solomon, 7 data bytes *)
(* and 5 check bytes per frame, roots alpha^0..alpha^4; the last frame of  *)
(* a message is shortened.                                                 *)
(***************************************************************************)
EXTENDS GF256
DAT == 7
ECC == 5
FRM == DAT + ECC

\* generator polynomial, highest degree first, by multiplying (x - alpha^i)
\* the generator polynomial, written out and by its definition
GenDef == LET MulRoot(p, r) == [i \in 1..Len(p) + 1 |->
              XorY(IF i <= Len(p) THEN p[i] ELSE 0, IF i > 1 THEN GMul(p[i - 1], r) ELSE 0)]
           RECURSIVE go(_, _)
           go(p, i) == IF i = ECC THEN p ELSE go(MulRoot(p, APow(i)), i + 1)
       IN go(<<1>>, 0)

Gen == <<1,31,198,63,147,116>>
ASSUME Gen = GenDef
\* check bytes: remainder of data * x^ECC divided by Gen (a shift register)
Parity(data) ==
  LET RECURSIVE go(_, _)
      go(i, reg) ==
        IF i > Len(data) THEN reg
        ELSE LET fb == XorY(data[i], reg[1])
             IN go(i + 1, \* (tuples: TLC evaluates a function's values anew at every application)
                       <<XorY(reg[2], GMul(fb, Gen[2])), XorY(reg[3], GMul(fb, Gen[3])), XorY(reg[4], GMul(fb, Gen[4])),
                         XorY(reg[5], GMul(fb, Gen[5])), GMul(fb, Gen[6])>>)
  IN go(1, [j \in 1..ECC |-> 0])
Encode(data) == data \o Parity(data)

\* syndrome number i of a received word of any length (last byte = degree 0)
Syn(w, i) == LET RECURSIVE go(_, _)
                 go(k, acc) == IF k > Len(w) THEN acc ELSE go(k + 1, XorY(GMul(acc, APow(i)), w[k]))
             IN go(1, 0)
Syns(w) == <<Syn(w, 0), Syn(w, 1), Syn(w, 2), Syn(w, 3), Syn(w, 4)>>
IsCode(w) == \A i \in 0..ECC - 1 : Syn(w, i) = 0

\* error patterns of weight 1 and 2 explaining syndromes s in a word of length n:
\* sets of <<position, value>>
Loc(n, p) == APow(n - p)
Fits(s, X, Y) == \A i \in 1..ECC :
   s[i] = XorY(GMul(Y[1], APow(GLog[X[1]] * (i - 1))), GMul(Y[2], APow(GLog[X[2]] * (i - 1))))
OneErr(s, n) == {p \in 1..n : s[1] # 0 /\ \A i \in 2..ECC : s[i] = GMul(s[i - 1], Loc(n, p))}
TwoErr(s, n) ==
  { pq \in (1..n) \X (1..n) :
      /\ pq[1] < pq[2]
      /\ LET X1 == Loc(n, pq[1])  X2 == Loc(n, pq[2])
             e2 == GDiv(XorY(s[2], GMul(X1, s[1])), XorY(X1, X2))
             e1 == XorY(s[1], e2)
         IN e1 # 0 /\ e2 # 0 /\ Fits(s, <<X1, X2>>, <<e1, e2>>) }
Flip(w, p, e) == [w EXCEPT ![p] = XorY(@, e)]

\* Bounded-distance decoding: <<TRUE, codeword>> when at most 2 bytes differ from a
\* codeword, else <<FALSE, w>>.
Correct(w) ==
  LET n == Len(w)  s == Syns(w) IN
  IF \A i \in 1..ECC : s[i] = 0 THEN <<TRUE, w>>
  ELSE LET o == OneErr(s, n) IN
       IF o # {} THEN <<TRUE, Flip(w, CHOOSE p \in o : TRUE, s[1])>>
       ELSE LET t == TwoErr(s, n) IN
            IF t = {} THEN <<FALSE, w>>
            ELSE LET pq == CHOOSE x \in t : TRUE
                     X1 == Loc(n, pq[1])  X2 == Loc(n, pq[2])
                     e2 == GDiv(XorY(s[2], GMul(X1, s[1])), XorY(X1, X2))
                 IN <<TRUE, Flip(Flip(w, pq[1], XorY(s[1], e2)), pq[2], e2)>>

\* ---- stream level
Slice(s, a, b) == SubSeq(s, a, Min2(b, Len(s)))
EncStream(bytes) ==
  LET n == CeilDiv(Len(bytes), DAT)
      RECURSIVE go(_, _)
      go(k, acc) == IF k > n THEN acc
                    ELSE go(k + 1, acc \o Encode(Slice(bytes, DAT * (k - 1) + 1, DAT * k)))
  IN go(1, <<>>)
EncBits(bits) == BitsOfBytes(EncStream(Bytes(bits)))

\* Decoder output: per frame <<known, data bytes>>; frames with no data byte are dropped
DecFrames(bytes) ==
  LET n == CeilDiv(Len(bytes), FRM)
      F(k) == Slice(bytes, FRM * (k - 1) + 1, FRM * k)
      all == [k \in 1..n |-> F(k)]
      ok == SelectSeq(all, LAMBDA f : Len(f) > ECC)
  IN <<>> \o [k \in 1..Len(ok) |-> LET c == Correct(ok[k]) IN <<c[1], SubSeq(c[2], 1, Len(ok[k]) - ECC)>>]  \* a tuple, evaluated once
=============================================================================
