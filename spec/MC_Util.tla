-------------------------------- MODULE MC_Util --------------------------------
(* Conversions are inverse to each other; insertion and extraction do what    *)
(* integer arithmetic says; floating point patterns are ordered and distinct. *)
EXTENDS Util, TLC
CONSTANTS MaxW, EB, FB
VARIABLES vKind, vX, vSeen            \* a case is chosen, then looked at
vars == <<vKind, vX, vSeen>>
Sample == {0, 1, 128, 255}
Vals == UNION {[1..w -> {0, 1}] : w \in 0..MaxW}
Init == /\ vSeen = 0
        /\ \/ vKind = "bytes" /\ vX \in UNION {[1..n -> Sample] : n \in {0, 2, 4}}
           \/ vKind = "field" /\ \E v \in Vals, m \in 0..MaxW, l \in 0..MaxW : l <= m /\ vX = <<v, m, l>>
           \/ vKind = "float" /\ vX \in [1..(1 + EB + FB) -> {0, 1}]
Next == vSeen = 0 /\ vSeen' = 1 /\ UNCHANGED <<vKind, vX>>
Spec == Init /\ [][Next]_vars
P(b) == ToNat(b)
Field(v, m, l) ==
  /\ P(Extract(v, m, l)) = (P(v) \div 2^l) % 2^(m - l + 1)
  /\ \A f \in Vals : LET r == Insert(v, f, m, l) IN
       /\ P(Extract(r, m, l)) = P(f) % 2^(m - l + 1)
       /\ P(r) = P(v) - (P(Extract(v, m, l)) * 2^l) + (P(f) % 2^(m - l + 1)) * 2^l
       /\ r = Norm(r) /\ Insert(r, Extract(v, m, l), m, l) = Norm(v)
  /\ P(MaskOf(Range(m, l))) = 2^(m + 1) - 2^l
  /\ BitCount(MaskOf(Range(m, l))) = m - l + 1
Mag(p) == SubSeq(p, 1, EB + FB)
\* numbers scaled to integers: all exponents are at least 2 - bias - fb
Scaled(x) == IF x[1] = "zero" THEN 0 ELSE x[3] * 2^(x[4] - (2 - (2^(EB - 1) - 1) - FB))
Inv ==
  vSeen = 1 =>
  CASE vKind = "bytes" ->
         /\ OfHalves(Halves(vX)) = vX
         /\ Len(vX) = 4 => OfWords32(Words32(vX)) = vX
         /\ \A h \in {0, 1, 255, 256, 32768, 65535} : Halves(Bytes16(h)) = <<h>>
    [] vKind = "field" -> Field(vX[1], vX[2], vX[3])
    [] vKind = "float" ->
         LET x == Float(vX, EB, FB) IN
         \A q \in [1..(1 + EB + FB) -> {0, 1}] :
           LET y == Float(q, EB, FB) IN
           /\ (q # vX /\ x[1] # "nan") => x # y
           /\ (x[1] \in {"num", "zero"} /\ y[1] \in {"num", "zero"} /\ x[2] = y[2]) =>
                (P(Mag(vX)) < P(Mag(q))) <=> (Scaled(x) < Scaled(y))
           /\ x[1] = "num" => x[3] \in 2^FB..(2^(FB + 1) - 1)
=============================================================================
