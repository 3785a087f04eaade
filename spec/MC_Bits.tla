-------------------------------- MODULE MC_Bits --------------------------------
(* Every operator on bit sequences, for all operands up to MaxW bits and all  *)
(* small integers, against TLC's integer arithmetic; order axioms; the        *)
(* positions, conversions and pseudo-code primitives.                         *)
EXTENDS Bits
CONSTANT MaxW
VARIABLES vX, vY
vars == <<vX, vY>>
All == UNION { [1..n -> {0, 1}] : n \in 0..MaxW }
Init == vX \in All /\ vY = <<9>>
Next == vY = <<9>> /\ vY' \in All /\ UNCHANGED vX
Spec == Init /\ [][Next]_vars
V(x) == ToNat(x)
W == Len(vX)
IntOf(n) == IF n >= 0 THEN Num2(0, NatBits(n, 8)) ELSE Num2(1, NatBits(n + 256, 8))
IVal(n) == V(n.b) - (IF n.s = 1 THEN 2^Len(n.b) ELSE 0)
SVal(x) == IF x = << >> THEN 0 ELSE V(x) - x[Len(x)] * 2^Len(x)
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Num(op, a, b) == CASE op = "add" -> a + b [] op = "sub" -> a - b [] op = "mul" -> a * b
                   [] op = "floordiv" -> IF b > 0 THEN a \div b ELSE (-a) \div (-b)
Some == {-17, -8, -3, -2, -1, 0, 1, 2, 3, 5, 9, 16, 31, 100}
One1 ==
  /\ V(vX) \in 0..(2^W - 1) /\ NatBits(V(vX), W) = vX
  /\ IVal(Signed(vX)) = SVal(vX) /\ SVal(vX) \in (-(2^W))..(2^W - 1)
  /\ V(BNot(vX)) = 2^W - 1 - V(vX) /\ Rev(Rev(vX)) = vX
  /\ \A n \in Some :
       /\ IVal(IntOf(n)) = n
       /\ \A op \in {"add", "sub", "mul", "floordiv"} :
            (op = "floordiv" => n # 0) => V(BinOp(op, vX, IntOf(n))) = Num(op, V(vX), n) % 2^W
       /\ n >= 0 => BCmpI(vX, IntOf(n)) = Sgn(V(vX) - n)
       /\ n < 0 => BCmpI(vX, IntOf(n)) = Sgn(SVal(vX) - n)
       /\ AbsI(IntOf(n)) # << >> /\ V(AbsI(IntOf(n))) = IF n < 0 THEN -n ELSE n
  /\ \A n \in 0..(MaxW + 2) :
       /\ V(Lsh(vX, n)) = (V(vX) * 2^n) % 2^W
       /\ V(Rsh(vX, n)) = V(vX) \div 2^n
       /\ W > 0 => SVal(AsrB(vX, n)) = SVal(vX) \div 2^n
       /\ W > 0 => RorB(vX, n) = LET m == n % W IN Or2(Rsh(vX, m), Lsh(vX, W - m))
       /\ V(AlignB(vX, n)) = 2^n * (V(vX) \div 2^n)
       \* carries: the architecture's definitions by extension
       /\ n >= 1 /\ W > 0 =>
          /\ ShiftBC("lsl", vX, n, 0)[2] = ((V(vX) * 2^n) \div 2^W) % 2
          /\ ShiftBC("lsr", vX, n, 0)[2] = (V(vX) \div 2^(n - 1)) % 2
          /\ ShiftBC("asr", vX, n, 0)[2] = (SVal(vX) \div 2^(n - 1)) % 2
       /\ Fit(vX, n) = NatBits(V(vX) % 2^n, n)
       /\ W > 0 /\ n >= W => SVal(SFit(vX, n)) = SVal(vX)
  /\ FromBytes(ToBytes(vX)) = Fit(vX, 8 * ((W + 7) \div 8))
  /\ BitCount(vX) = BitCount(Rev(vX))
  /\ Any1(vX) => /\ V(vX) >= 2^Highest(vX) /\ V(vX) < 2^(Highest(vX) + 1)
                 /\ V(vX) % 2^Lowest(vX) = 0 /\ (V(vX) \div 2^Lowest(vX)) % 2 = 1
  /\ DecText2(vX) = NatText(V(vX))
  /\ \A a, b \in { << >> } \cup { <<i>> : i \in (-(MaxW) - 1)..(MaxW + 1) } :
       /\ V(Slice(vX, a, b, << >>)) = LET s == SliceOf(W, a, b, << >>) IN
                                      IF s.to <= s.from THEN 0 ELSE (V(vX) \div 2^s.from) % 2^(s.to - s.from)
       /\ Slice(vX, a, b, <<1>>) = Slice(vX, a, b, << >>)
  /\ Slice(vX, << >>, << >>, <<-1>>) = Rev(vX)
  /\ W > 0 => \A c \in {0, 1} : V(RrxB(vX, c)) = V(vX) \div 2 + c * 2^(W - 1)
Two ==
  LET u == V(vX)  v == V(vY)  n == Len(vY) IN
  /\ W = n => /\ V(BAdd(vX, vY)) = (u + v) % 2^W
              /\ V(BSub(vX, vY)) = (u - v) % 2^W
              /\ V(BMul(vX, vY)) = (u * v) % 2^W
              /\ W > 0 => \A c \in {0, 1} : LET a == AddCarry(vX, vY, c) IN
                   /\ V(a.r) + a.c * 2^W = u + v + c
                   /\ a.v = IF SVal(a.r) = SVal(vX) + SVal(vY) + c THEN 0 ELSE 1
  /\ v # 0 => LET d == DivMod(vX, vY) IN V(d.q) = u \div v /\ V(d.r) = u % v
  /\ BinOpB("and", vX, vY) = Fit(And2(Fit(vX, MaxW), Fit(vY, MaxW)), W)
  /\ V(BinOpB("or", vX, vY)) + V(BinOpB("and", vX, vY)) = u + v
  /\ V(BinOpB("xor", vX, vY)) + 2 * V(BinOpB("and", vX, vY)) = u + v
  /\ Len(BinOpB("or", vX, vY)) = Max2(W, n)
  /\ UCmp(vX, vY) = Sgn(u - v)
  /\ (BCmp(vX, vY) = 0) = (vX = vY) /\ BCmp(vX, vY) = -BCmp(vY, vX)
  /\ V(Concat(vX, vY)) = u * 2^n + v
  /\ \A z \in UNION { [1..k -> {0, 1}] : k \in 0..2 } : BCmp(vX, vY) < 0 /\ BCmp(vY, z) < 0 => BCmp(vX, z) < 0
  /\ ICmp(Signed(vX), Signed(vY)) = Sgn(SVal(vX) - SVal(vY))
  /\ \A a, b \in -(MaxW)..MaxW : LET s == SliceOf(W, <<a>>, <<b>>, << >>) IN
       s.from <= s.to /\ s.to - s.from = n =>
          LET x == SetSlice(vX, <<a>>, <<b>>, vY) IN
          /\ Slice(x, <<a>>, <<b>>, << >>) = vY
          /\ \A i \in 1..W : (i - 1 < s.from \/ i - 1 >= s.to) => x[i] = vX[i]
Inv == IF vY = <<9>> THEN One1 ELSE Two
\* constants: every 12-bit immediate is its 8-bit (or 1xxxxxxx) value rotated or repeated
ASSUME \A i \in {0, 1, 255, 256, 511, 768, 1023, 1024, 1151, 2047, 2048, 3456, 4095} :
  LET x == NatBits(i, 12)  e == ExpandImm(x, 1)[1] IN
  IF i < 1024 THEN CASE i \div 256 = 0 -> e = Fit(SubSeq(x, 1, 8), 32)
                     [] i \div 256 = 1 -> e = BMul(Fit(SubSeq(x, 1, 8), 32), Fit(NatBits(65537, 17), 32))
                     [] i \div 256 = 2 -> e = BMul(Fit(SubSeq(x, 1, 8), 32), Fit(NatBits(16777472, 25), 32))
                     [] i \div 256 = 3 -> e = BMul(Fit(SubSeq(x, 1, 8), 32), Fit(NatBits(16843009, 25), 32))
  ELSE e = RorB(Fit(NatBits(128 + (i % 128), 8), 32), i \div 128) /\ ExpandImm(x, 1)[2] = e[32]
=============================================================================
