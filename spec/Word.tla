-------------------------------- MODULE Word --------------------------------
(* Machine words as pairs <<hi, lo>> of LB-bit limbs (TLC's integers are 32   *)
(* bits wide, so a 32-bit word does not fit one).  LB = 16 is the real        *)
(* machine; MC_Word checks every operator against plain integer arithmetic    *)
(* for all words at LB = 2 and 4.                                             *)
EXTENDS Integers, Sequences, Bitwise

LB == 16                    \* limb width in bits, even, 2 <= LB <= 16

B  == 2^LB                 \* limb base
W  == 2 * LB               \* word width
Hb == LB \div 2            \* half-limb width, for multiplication
Hm == 2^Hb

P2 == [i \in 0..LB |-> 2^i]

IsWord(a) == a[1] \in 0..B-1 /\ a[2] \in 0..B-1
Word      == (0..B-1) \X (0..B-1)
Zero      == <<0, 0>>
One       == <<0, 1>>
Ones      == <<B-1, B-1>>
\* the natural number n < 2^31 as a word
FromNat(n) == IF LB = 16 THEN <<n \div B, n % B>> ELSE <<(n \div B) % B, n % B>>
\* an integer, -2^30 < n < 2^30, as a word (two's complement)
WNot(a) == <<B-1-a[1], B-1-a[2]>>
FromInt(n) == IF n >= 0 THEN FromNat(n) ELSE WNot(FromNat(-n - 1))

Bit(a, i) == IF i < LB THEN (a[2] \div P2[i]) % 2 ELSE (a[1] \div P2[i - LB]) % 2
Msb(a)    == a[1] \div P2[LB-1]

\* x + y + c: result, carry out, signed overflow
AddWithCarry(x, y, c) ==
  LET l == x[2] + y[2] + c
      h == x[1] + y[1] + l \div B
      r == <<h % B, l % B>>
  IN [r |-> r, c |-> h \div B,
      v |-> IF Msb(x) = Msb(y) /\ Msb(r) # Msb(x) THEN 1 ELSE 0]
Add(x, y)  == AddWithCarry(x, y, 0).r
Sub(x, y)  == AddWithCarry(x, WNot(y), 1).r
AddN(x, n) == Add(x, FromNat(n))
SubN(x, n) == Sub(x, FromNat(n))

WAnd(x, y) == <<x[1] & y[1], x[2] & y[2]>>
WOr(x, y)  == <<x[1] | y[1], x[2] | y[2]>>
WXor(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>

Lsl(a, n) ==
  CASE n = 0 -> a
    [] n >= W -> Zero
    [] n >= LB -> <<(a[2] * P2[n - LB]) % B, 0>>
    [] OTHER -> <<(a[1] * P2[n] + a[2] \div P2[LB - n]) % B, (a[2] * P2[n]) % B>>
Lsr(a, n) ==
  CASE n = 0 -> a
    [] n >= W -> Zero
    [] n >= LB -> <<0, a[1] \div P2[n - LB]>>
    [] OTHER -> <<a[1] \div P2[n], (a[1] % P2[n]) * P2[LB - n] + a[2] \div P2[n]>>
\* the top n bits set
TopOnes(n) == WNot(Lsr(Ones, n))
Asr(a, n) ==
  IF Msb(a) = 0 THEN Lsr(a, n)
  ELSE IF n >= W THEN Ones ELSE WOr(Lsr(a, n), TopOnes(n))
Ror(a, n) == LET m == n % W IN IF m = 0 THEN a ELSE WOr(Lsr(a, m), Lsl(a, W - m))
Rrx(a, c) == WOr(Lsr(a, 1), <<c * P2[LB-1], 0>>)

\* The last bit shifted out, for n >= 1
LslC(a, n) == IF n > W THEN 0 ELSE Bit(a, W - n)
LsrC(a, n) == IF n > W THEN 0 ELSE Bit(a, n - 1)
AsrC(a, n) == IF n > W THEN Msb(a) ELSE Bit(a, n - 1)
RorC(a, n) == Msb(Ror(a, n))

\* shift by type ("none", "lsl", "lsr", "asr", "ror", "rrx"), amount and carry in
ShiftC(a, type, n, c) ==
  IF n = 0 \/ type = "none" THEN [r |-> a, c |-> c]
  ELSE CASE type = "lsl" -> [r |-> Lsl(a, n), c |-> LslC(a, n)]
         [] type = "lsr" -> [r |-> Lsr(a, n), c |-> LsrC(a, n)]
         [] type = "asr" -> [r |-> Asr(a, n), c |-> AsrC(a, n)]
         [] type = "ror" -> [r |-> Ror(a, n), c |-> RorC(a, n)]
         [] type = "rrx" -> [r |-> Rrx(a, c), c |-> Bit(a, 0)]

\* low word of the product (half-limb digits, schoolbook)
Dig(a) == <<a[2] % Hm, a[2] \div Hm, a[1] % Hm, a[1] \div Hm>>
Mul(x, y) ==
  LET p == Dig(x)  q == Dig(y)
      c0 == p[1]*q[1]
      c1 == p[1]*q[2] + p[2]*q[1] + c0 \div Hm
      c2 == p[1]*q[3] + p[2]*q[2] + p[3]*q[1] + c1 \div Hm
      c3 == p[1]*q[4] + p[2]*q[3] + p[3]*q[2] + p[4]*q[1] + c2 \div Hm
  IN <<(c2 % Hm) + (c3 % Hm) * Hm, (c0 % Hm) + (c1 % Hm) * Hm>>

\* a is a multiple-of-2^k address rounded down
AlignTo(a, k) == <<a[1], a[2] - (a[2] % P2[k])>>

Ult(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Ule(a, b) == a = b \/ Ult(a, b)
IsZero(a) == a = Zero

\* low n bits, n <= LB
Low(a, n) == a[2] % P2[n]
\* sign-extend the low n bits (n <= LB) to a word
Sext(v, n) == IF v \div P2[n-1] = 1
              THEN <<B-1, B - P2[n] + v>> ELSE <<0, v>>
=============================================================================
