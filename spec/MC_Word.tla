------------------------------- MODULE MC_Word -------------------------------
(* Every word operator equals its definition on plain integers, for ALL pairs *)
(* of words (and all shift amounts) of a small machine.  One state per pair.  *)
EXTENDS Word, TLC, FiniteSets
VARIABLES x, y
N == 2^W
UInt(a) == a[1] * B + a[2]
SInt(a) == IF UInt(a) >= N \div 2 THEN UInt(a) - N ELSE UInt(a)
Of(n) == <<(n % N) \div B, n % B>>
BitN(n, i) == (n \div 2^i) % 2
FloorDiv(n, d) == n \div d   \* TLC's \div is floor division

Init == x \in Word /\ y = Zero
Next == y = Zero /\ y' \in Word \ {Zero} /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, y>>

AddLaw == \A c \in 0..1 :
  LET a == AddWithCarry(x, y, c)
      u == UInt(x) + UInt(y) + c
      s == SInt(x) + SInt(y) + c
  IN /\ a.r = Of(u)
     /\ a.c = (IF u >= N THEN 1 ELSE 0)
     /\ a.v = (IF s < -(N \div 2) \/ s >= N \div 2 THEN 1 ELSE 0)
SubLaw == Sub(x, y) = Of(UInt(x) - UInt(y)) /\ Add(x, y) = Of(UInt(x) + UInt(y))
CmpLaw == AddWithCarry(x, WNot(y), 1).c = (IF UInt(x) >= UInt(y) THEN 1 ELSE 0)
MulLaw == Mul(x, y) = Of(UInt(x) * UInt(y))
BitLaw == /\ \A i \in 0..W-1 : Bit(x, i) = BitN(UInt(x), i)
          /\ Msb(x) = BitN(UInt(x), W-1)
          /\ \A i \in 0..W-1 :
               /\ Bit(WAnd(x, y), i) = Bit(x, i) * Bit(y, i)
               /\ Bit(WOr(x, y), i) = (IF Bit(x, i) + Bit(y, i) > 0 THEN 1 ELSE 0)
               /\ Bit(WXor(x, y), i) = (Bit(x, i) + Bit(y, i)) % 2
               /\ Bit(WNot(x), i) = 1 - Bit(x, i)
OrdLaw == Ult(x, y) = (UInt(x) < UInt(y)) /\ Ule(x, y) = (UInt(x) <= UInt(y))
\* Shifts, one position at a time: n single-bit steps give the result, the last
\* step's outgoing bit the carry (the pseudo-code's extended operand).
RECURSIVE Step(_, _, _, _)
Step(a, type, n, c) ==
  IF n = 0 THEN [r |-> a, c |-> c]
  ELSE LET i == UInt(a) IN
    CASE type = "lsl" -> Step(Of(2 * i), type, n - 1, BitN(i, W-1))
      [] type = "lsr" -> Step(Of(i \div 2), type, n - 1, i % 2)
      [] type = "asr" -> Step(Of(i \div 2 + (i \div (N \div 2)) * (N \div 2)), type, n - 1, i % 2)
      [] type = "ror" -> Step(Of(i \div 2 + (i % 2) * (N \div 2)), type, n - 1, i % 2)
      [] type = "rrx" -> Step(Of(i \div 2 + c * (N \div 2)), type, n - 1, i % 2)
ShiftLaw == (y = Zero) =>
  \A c \in 0..1 :
    /\ \A t \in {"lsl", "lsr", "asr", "ror"}, n \in 0..(2*W+2) : ShiftC(x, t, n, c) = Step(x, t, n, c)
    /\ ShiftC(x, "rrx", 1, c) = Step(x, "rrx", 1, c)
    /\ \A n \in 0..(2*W+2) : ShiftC(x, "none", n, c) = [r |-> x, c |-> c]
ExtLaw == (y = Zero) =>
  /\ \A n \in 1..LB : SInt(Sext(Low(x, n), n)) =
        (LET l == UInt(x) % 2^n IN IF l >= 2^(n-1) THEN l - 2^n ELSE l)
  /\ \A k \in 0..LB : UInt(AlignTo(x, k)) = (UInt(x) \div 2^k) * 2^k
  /\ FromNat(UInt(x)) = x
  /\ FromInt(SInt(x)) = x
=============================================================================
