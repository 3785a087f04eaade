------------------------------- MODULE MC_Enc -------------------------------
(* Sanity of the encoding table, over all first halfwords and chosen second   *)
(* halfwords: diagrams have 16 bits, fields and fixed bits partition a word,  *)
(* and no two encodings of equal weight compete for a word.                   *)
EXTENDS Asm
VARIABLES h1, h2
H2s == {0, 65535, 3844, 3849, 19716, 32768, 61440, 61584, 61600, 40960, 55296, 63488, 36703, 4095}
Init == h1 \in 0..255 /\ h2 = 0
Next == \/ h2 = 0 /\ h1 < 256 /\ \E x \in 0..255, y \in H2s : h1' = 256 * h1 + x + 65536 /\ h2' = y
Spec == Init /\ [][Next]_<<h1, h2>>
Cs(a, b) == IF Is32(a) THEN Candidates(a, b) ELSE Candidates(a, 0)
NoTie == h1 >= 65536 =>
  LET c == Cs(h1 - 65536, h2) IN
  \A i, j \in 1..Len(c) : i # j /\ Enc[c[i]].weight = Enc[c[j]].weight =>
      \* overlapping by design: addspr1/addspr2 both claim "add sp, sp" (see -> addspr1)
      {Enc[c[i]].k, Enc[c[j]].k} = {"addspr1", "addspr2"}
\* a more specific candidate refines the more general one
Nested == h1 >= 65536 =>
  LET c == Cs(h1 - 65536, h2) IN
  \A i, j \in 1..Len(c) : Enc[c[i]].weight >= Enc[c[j]].weight \/ i > j
ASSUME \A i \in 1..NE : Len(Encodings[i].p) = 16 /\ Len(Encodings[i].q) \in {0, 16}
ASSUME \A i \in 1..NE : LettersOf(Encodings[i]) \subseteq Letters
ASSUME \A i \in 1..NE : Is32(Enc[i].match1) = Enc[i].is32
ASSUME PrintT(<<"encodings", NE>>)
=============================================================================
