--------------------------------- MODULE Bits ---------------------------------
(* Bitstrings of any width as sequences of 0/1, least significant bit first,  *)
(* and unbounded integers as a sign bit s (0/1) repeated for ever above a     *)
(* sequence of bits b.  MC_Bits checks every operator against TLC's integers. *)
EXTENDS Integers, Sequences

IsBits(x) == \A i \in 1..Len(x) : x[i] \in {0, 1}
\* ------------------------------------------------------------ elementary
At(x, i) == IF i < Len(x) THEN x[i + 1] ELSE 0
Fit(x, w) == [i \in 1..w |-> IF i <= Len(x) THEN x[i] ELSE 0]           \* zero-extended or cut off
SFit(x, w) == [i \in 1..w |-> IF i <= Len(x) THEN x[i] ELSE x[Len(x)]]  \* sign-extended
Zeros(w) == [i \in 1..w |-> 0]
BNot(x) == [i \in 1..Len(x) |-> 1 - x[i]]
Any1(x) == \E i \in 1..Len(x) : x[i] = 1
Rev(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
Max2(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Num2(s, b) == [s |-> s, b |-> b]
UInt(x) == Num2(0, x)
\* the low w bits of an integer
Low2(n, w) == [i \in 1..w |-> IF i <= Len(n.b) THEN n.b[i] ELSE n.s]
\* number of bits set
RECURSIVE Ones1(_, _)
Ones1(x, i) == IF i = 0 THEN 0 ELSE x[i] + Ones1(x, i - 1)
BitCount(x) == Ones1(x, Len(x))
Lowest(x) == IF Any1(x) THEN (CHOOSE i \in 1..Len(x) : x[i] = 1 /\ \A j \in 1..(i - 1) : x[j] = 0) - 1 ELSE Len(x)
Highest(x) == IF Any1(x) THEN (CHOOSE i \in 1..Len(x) : x[i] = 1 /\ \A j \in (i + 1)..Len(x) : x[j] = 0) - 1 ELSE -1
\* a small value as an integer (less than 2^30)
RECURSIVE ToNat(_)
ToNat(x) == IF x = << >> THEN 0 ELSE Head(x) + 2 * ToNat(Tail(x))
RECURSIVE NatBits(_, _)
NatBits(n, w) == IF w = 0 THEN << >> ELSE <<n % 2>> \o NatBits(n \div 2, w - 1)

\* ------------------------------------------------------------ arithmetic
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(x, y, c, i, acc) ==
  IF i > Len(x) THEN [r |-> acc, c |-> c]
  ELSE LET t == x[i] + y[i] + c IN AddFrom(x, y, t \div 2, i + 1, Append(acc, t % 2))
AddC(x, y, c) == AddFrom(x, y, c, 1, << >>)            \* equal widths: sum and carry out
BAdd(x, y) == AddC(x, y, 0).r
BSub(x, y) == AddC(x, BNot(y), 1).r
BNeg(x) == BSub(Zeros(Len(x)), x)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(x, y, i, acc) ==                               \* acc + x * (y shifted), bits of x from i
  IF i > Len(x) THEN acc
  ELSE MulFrom(x, y, i + 1, IF x[i] = 1 THEN BAdd(acc, [j \in 1..Len(x) |-> IF j < i THEN 0 ELSE y[j - i + 1]]) ELSE acc)
BMul(x, y) == MulFrom(x, y, 1, Zeros(Len(x)))          \* equal widths, modulo
\* unsigned comparison, any widths
RECURSIVE UCmpFrom(_, _, _)
UCmpFrom(x, y, i) == IF i = 0 THEN 0
                     ELSE IF At(x, i - 1) # At(y, i - 1) THEN (IF At(x, i - 1) > At(y, i - 1) THEN 1 ELSE -1)
                     ELSE UCmpFrom(x, y, i - 1)
UCmp(x, y) == UCmpFrom(x, y, Max2(Len(x), Len(y)))
\* quotient (width of x) and remainder (width of y, plus one) of x by y, y not zero
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(x, y, i, q, r) ==
  IF i = 0 THEN [q |-> q, r |-> r]
  ELSE LET r1 == <<x[i]>> \o SubSeq(r, 1, Len(r) - 1)
           ge == UCmp(r1, y) >= 0
       IN DivFrom(x, y, i - 1, [q EXCEPT ![i] = IF ge THEN 1 ELSE 0], IF ge THEN BSub(r1, y) ELSE r1)
DivMod(x, y) == LET y1 == Fit(y, Len(y) + 1) IN DivFrom(x, y1, Len(x), Zeros(Len(x)), Zeros(Len(y) + 1))
\* integers
IsNeg(n) == n.s = 1
IsZeroI(n) == n.s = 0 /\ ~Any1(n.b)
AbsI(n) == IF IsNeg(n) THEN BNeg(Low2(n, Len(n.b) + 1)) ELSE n.b
ICmp(m, n) == IF m.s # n.s THEN (IF m.s = 1 THEN -1 ELSE 1)
              ELSE LET w == Max2(Len(m.b), Len(n.b)) IN UCmp(Low2(m, w), Low2(n, w))
\* floor of unsigned x by integer n (not zero), modulo 2^width
FloorDiv(x, n) ==
  LET d == DivMod(x, AbsI(n)) IN
  IF ~IsNeg(n) THEN d.q
  ELSE BNeg(IF Any1(d.r) THEN BAdd(d.q, Fit(<<1>>, Len(x))) ELSE d.q)
\* two's-complement reading
Signed(x) == IF x = << >> THEN Num2(0, << >>) ELSE Num2(x[Len(x)], x)

\* ------------------------------------------------------------ operators
Lsh(x, n) == [i \in 1..Len(x) |-> IF i <= n THEN 0 ELSE x[i - n]]
Rsh(x, n) == [i \in 1..Len(x) |-> IF i + n <= Len(x) THEN x[i + n] ELSE 0]
And2(x, y) == [i \in 1..Len(x) |-> x[i] * y[i]]
Or2(x, y) == [i \in 1..Len(x) |-> Max2(x[i], y[i])]
Xor2(x, y) == [i \in 1..Len(x) |-> (x[i] + y[i]) % 2]
\* x op the integer n, in the width of x
BinOp(op, x, n) ==
  LET y == Low2(n, Len(x)) IN
  CASE op = "add" -> BAdd(x, y)
    [] op = "sub" -> BSub(x, y)
    [] op = "mul" -> BMul(x, y)
    [] op = "floordiv" -> FloorDiv(x, n)
    [] op = "and" -> And2(x, y)
    [] op = "or" -> Or2(x, y)
    [] op = "xor" -> Xor2(x, y)
\* x op the bitstring y: | and ^ take the larger width
BinOpB(op, x, y) == IF op \in {"or", "xor"} THEN BinOp(op, Fit(x, Max2(Len(x), Len(y))), UInt(y)) ELSE BinOp(op, x, UInt(y))
\* an integer as the left operand becomes 32 bits wide, or 64 from 2^32 up
FromInt2(n) == Low2(n, IF ~IsNeg(n) /\ UCmp(n.b, [i \in 1..33 |-> IF i = 33 THEN 1 ELSE 0]) >= 0 THEN 64 ELSE 32)
\* the left operand is the most significant part
Concat(x, y) == y \o x
\* total order: value, then width
BCmp(x, y) == LET c == UCmp(x, y) IN IF c # 0 THEN c ELSE IF Len(x) = Len(y) THEN 0 ELSE IF Len(x) < Len(y) THEN -1 ELSE 1
BCmpI(x, n) == IF IsNeg(n) THEN ICmp(Signed(x), n) ELSE ICmp(UInt(x), n)

\* ------------------------------------------------------------ positions
\* start, stop and step of a slice of w bits; None is <<>>, else <<integer>>
Clamp(v, w, lo, hi) == IF v < 0 THEN (IF v + w < lo THEN lo ELSE v + w) ELSE IF v > hi THEN hi ELSE v
SliceOf(w, a, b, c) ==
  LET st == IF c = << >> THEN 1 ELSE c[1]
      lo == IF st < 0 THEN -1 ELSE 0
      hi == IF st < 0 THEN w - 1 ELSE w
      from == IF a = << >> THEN (IF st < 0 THEN hi ELSE lo) ELSE Clamp(a[1], w, lo, hi)
      to   == IF b = << >> THEN (IF st < 0 THEN lo ELSE hi) ELSE Clamp(b[1], w, lo, hi)
  IN [from |-> from, to |-> to, step |-> st]
RECURSIVE Positions(_, _, _)
Positions(i, to, st) == IF (st > 0 /\ i >= to) \/ (st < 0 /\ i <= to) THEN << >>
                        ELSE <<i>> \o Positions(i + st, to, st)
Slice(x, a, b, c) == LET s == SliceOf(Len(x), a, b, c)  p == Positions(s.from, s.to, s.step) IN
                     [i \in 1..Len(p) |-> x[p[i] + 1]]
SetSlice(x, a, b, y) == LET s == SliceOf(Len(x), a, b, << >>) IN
  [i \in 1..Len(x) |-> IF i - 1 >= s.from /\ i - 1 < s.to THEN At(y, i - 1 - s.from) ELSE x[i]]
Index(w, i) == IF i < 0 THEN i + w ELSE i

\* ------------------------------------------------------------ text, bytes
RECURSIVE BinText(_)
BinText(x) == IF x = << >> THEN "" ELSE BinText(Tail(x)) \o (IF Head(x) = 1 THEN "1" ELSE "0")
DigitCh(d) == SubSeq("0123456789abcdef", d + 1, d + 1)
\* digits of k bits, without leading zeros
RECURSIVE PowText(_, _)
PowText(x, k) == IF Len(x) <= k \/ ~Any1(SubSeq(x, k + 1, Len(x))) THEN DigitCh(ToNat(SubSeq(x, 1, MinI(k, Len(x)))))
                 ELSE PowText(SubSeq(x, k + 1, Len(x)), k) \o DigitCh(ToNat(SubSeq(x, 1, k)))
RECURSIVE DecText2(_)
DecText2(x) == LET d == DivMod(x, <<0, 1, 0, 1>>) IN
               IF Any1(d.q) THEN DecText2(d.q) \o DigitCh(ToNat(d.r)) ELSE DigitCh(ToNat(d.r))
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN DigitCh(n) ELSE NatText(n \div 10) \o DigitCh(n % 10)
BaseText(x, k) ==
  NatText(Len(x)) \o "'" \o
  (CASE k = 2 -> "b" \o BinText(x)
     [] k = 8 -> "o" \o PowText(x, 3)
     [] k = 10 -> "d" \o DecText2(x)
     [] k = 16 -> "h" \o PowText(x, 4))
\* little-endian bytes, the last one filled up with zeros
ToBytes(x) == [i \in 1..((Len(x) + 7) \div 8) |-> ToNat(Fit(SubSeq(x, 8 * i - 7, MinI(8 * i, Len(x))), 8))]
FromBytes(bs) == [i \in 1..(8 * Len(bs)) |-> (bs[(i + 7) \div 8] \div 2^((i - 1) % 8)) % 2]

\* ------------------------------------------------------------ architecture pseudo-code
\* Align(x, 2^k)
AlignB(x, k) == [i \in 1..Len(x) |-> IF i <= k THEN 0 ELSE x[i]]
AddCarry(x, y, c) ==
  LET a == AddC(x, y, c)  w == Len(x) IN
  [r |-> a.r, c |-> a.c, v |-> IF x[w] = y[w] /\ a.r[w] # x[w] THEN 1 ELSE 0]
AsrB(x, n) == [i \in 1..Len(x) |-> IF i + n <= Len(x) THEN x[i + n] ELSE x[Len(x)]]
RorB(x, n) == [i \in 1..Len(x) |-> x[((i - 1 + n) % Len(x)) + 1]]
RrxB(x, c) == [i \in 1..Len(x) |-> IF i = Len(x) THEN c ELSE x[i + 1]]
\* value and carry of a shift by n >= 1
ShiftBC(t, x, n, c) ==
  LET w == Len(x) IN
  CASE t = "lsl" -> <<Lsh(x, n), IF n > w THEN 0 ELSE x[w - n + 1]>>
    [] t = "lsr" -> <<Rsh(x, n), IF n > w THEN 0 ELSE x[n]>>
    [] t = "asr" -> <<AsrB(x, n), IF n > w THEN x[w] ELSE x[n]>>
    [] t = "ror" -> <<RorB(x, n), RorB(x, n)[w]>>
    [] t = "rrx" -> <<RrxB(x, c), x[1]>>
ShiftB(t, x, n, c) == IF n = 0 \/ t = "none" THEN <<x, c>> ELSE ShiftBC(t, x, n, c)
ImmShift(y, n) == CASE y = 0 -> <<"lsl", n>>
                    [] y = 1 -> <<"lsr", IF n = 0 THEN 32 ELSE n>>
                    [] y = 2 -> <<"asr", IF n = 0 THEN 32 ELSE n>>
                    [] y = 3 -> IF n = 0 THEN <<"rrx", 1>> ELSE <<"ror", n>>
\* the 12-bit constant x: value and carry
ExpandImm(x, c) ==
  LET b == SubSeq(x, 1, 8)  z == Zeros(8) IN
  IF x[12] = 0 /\ x[11] = 0
  THEN <<CASE x[10] = 0 /\ x[9] = 0 -> b \o z \o z \o z
           [] x[10] = 0 /\ x[9] = 1 -> b \o z \o b \o z
           [] x[10] = 1 /\ x[9] = 0 -> z \o b \o z \o b
           [] OTHER -> b \o b \o b \o b, c>>
  ELSE ShiftBC("ror", Fit(SubSeq(x, 1, 7) \o <<1>>, 32), ToNat(SubSeq(x, 8, 12)), c)
=============================================================================
