------------------------------ MODULE MC_Stream ------------------------------
(* Streams over all short sequences of halfwords of every kind, with or       *)
(* without a trailing byte: what is yielded tiles a prefix of the input, and  *)
(* a stream that starts where another one stands continues like it.           *)
EXTENDS Stream
CONSTANT MaxHalves
VARIABLES vS, vOut, vWhy
vars == <<vS, vOut, vWhy>>
\* a nop; an undefined 16-bit word; movs; a 32-bit prefix that works before nop-like
\* seconds (bl / dsb second halves); push {} (unpredictable); push.w of one register
Halves == {48896, 45056, 8193, 61440, 63488, 46080, 59693}
RECURSIVE Cat(_)
Cat(hs) == IF hs = << >> THEN << >> ELSE <<Head(hs) % 256, Head(hs) \div 256>> \o Cat(Tail(hs))
Init == /\ \E n \in 0..MaxHalves : \E hs \in [1..n -> Halves] : \E tail \in {<< >>, <<0>>} :
             vS = NewStream(FromNat(4096), Cat(hs) \o tail)
        /\ vOut = << >> /\ vWhy = ""
Next == /\ vWhy = ""
        /\ LET d == Peek(vS) IN
           /\ vS' = After(vS, d)
           /\ vOut' = IF d.st = "ok" THEN Append(vOut, [mn |-> Mnem(d.e, d.f), n |-> Size(d.e), at |-> AddN(vS.addr, vS.off)]) ELSE vOut
           /\ vWhy' = IF d.st = "ok" THEN "" ELSE d.st
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_, _)
Total(out, i) == IF i = 0 THEN 0 ELSE out[i].n + Total(out, i - 1)
RECURSIVE All(_)
All(st) == LET d == Peek(st) IN IF d.st # "ok" THEN <<d.st>> ELSE <<Mnem(d.e, d.f)>> \o All(After(st, d))
Rest(k) == [NewStream(FromNat(4096 + k), SubSeq(vS.bs, k + 1, Len(vS.bs))) EXCEPT !.end = vS.end]
Inv == /\ vS.off = Total(vOut, Len(vOut)) /\ vS.off <= Len(vS.bs) /\ vS.off % 2 = 0
       /\ \A i \in 1..Len(vOut) : vOut[i].at = FromNat(4096 + Total(vOut, i - 1))
       /\ vWhy = "end" => Remaining(vS) < 4
       /\ vWhy = "undef" => Remaining(vS) >= 4
       /\ (vWhy = "end" /\ Remaining(vS) >= 2) =>
             LET h == HalfAt(vS.bs, vS.off) IN Is32(h) \/ DecodeN(h, 0, 2).st = "undef"
       /\ vWhy = "" => All(Rest(vS.off)) = All(vS)
       /\ vWhy = "" => LET a == All(NewStream(vS.addr, vS.bs)) IN
                       /\ SubSeq(a, 1, Len(vOut)) = [i \in 1..Len(vOut) |-> vOut[i].mn]
                       /\ SubSeq(a, Len(vOut) + 1, Len(a)) = All(vS)
=============================================================================
