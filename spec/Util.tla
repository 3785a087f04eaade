--------------------------------- MODULE Util ---------------------------------
(* Conversions between bytes, halfwords and words, floating point numbers,    *)
(* and the selection of bits of an integer. Integers are bit sequences, least *)
(* significant bit first, without leading zeros (Norm); words are <<hi, lo>>. *)
EXTENDS Bits
RECURSIVE Cut0(_, _)
Cut0(b, n) == IF n > 0 /\ b[n] = 0 THEN Cut0(b, n - 1) ELSE SubSeq(b, 1, n)
Norm(b) == Cut0(b, Len(b))
\* ---------------------------------------------- bytes, halfwords and words
Half(bs, i) == bs[i] + 256 * bs[i + 1]                       \* at position i (from 1)
Word32(bs, i) == <<Half(bs, i + 2), Half(bs, i)>>
Bytes16(h) == <<h % 256, h \div 256>>
Bytes32(w) == Bytes16(w[2]) \o Bytes16(w[1])
Halves(bs) == [k \in 1..(Len(bs) \div 2) |-> Half(bs, 2 * k - 1)]
Words32(bs) == [k \in 1..(Len(bs) \div 4) |-> Word32(bs, 4 * k - 3)]
OfHalves(hs) == [k \in 1..(2 * Len(hs)) |-> Bytes16(hs[(k + 1) \div 2])[((k - 1) % 2) + 1]]
OfWords32(ws) == [k \in 1..(4 * Len(ws)) |-> Bytes32(ws[(k + 3) \div 4])[((k - 1) % 4) + 1]]
\* --------------------------------------------------------- floating point
\* a pattern of 1 + eb + fb bits stands for (-1)^s * (m / 2^(fb+1)) * 2^e with m having fb + 1 bits
RECURSIVE NormalM(_, _, _)
NormalM(m, e, top) == IF m >= top THEN <<m, e>> ELSE NormalM(2 * m, e - 1, top)
Float(p, eb, fb) ==
  LET f == ToNat(SubSeq(p, 1, fb))
      e == ToNat(SubSeq(p, fb + 1, fb + eb))
      s == p[fb + eb + 1]
      top == 2^eb - 1  bias == 2^(eb - 1) - 1
  IN IF e = top THEN (IF f = 0 THEN <<"inf", s>> ELSE <<"nan">>)
     ELSE IF e = 0 /\ f = 0 THEN <<"zero", s>>
     ELSE LET n == IF e = 0 THEN NormalM(f, 2 - bias, 2^fb) ELSE <<2^fb + f, e - bias + 1>> IN <<"num", s, n[1], n[2]>>
\* ---------------------------------------------------------- bits of integers
MaskOf(S) == IF S = {} THEN << >> ELSE LET top == CHOOSE x \in S : \A y \in S : y <= x IN
             [i \in 1..(top + 1) |-> IF (i - 1) \in S THEN 1 ELSE 0]
Range(msb, lsb) == lsb..msb
Extract(v, msb, lsb) == Norm([i \in 1..(msb - lsb + 1) |-> At(v, lsb + i - 1)])
Insert(v, f, msb, lsb) == Norm([i \in 1..Max2(Len(v), msb + 1) |->
                            IF i - 1 \in Range(msb, lsb) THEN At(f, i - 1 - lsb) ELSE At(v, i - 1)])
=============================================================================
