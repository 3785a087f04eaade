------------------------------- MODULE Memory -------------------------------
(* Byte-addressable memories.                                                 *)
(* flat: every address exists; unwritten bytes have a background value.       *)
(* mock: regions <<start, length>>, created empty (zero); an access belongs   *)
(* to the first region that contains its first address and to no other.       *)
EXTENDS Word, TLC

EmptyMap == [x \in {} |-> 0]

\* background byte of flat memory
Bg(a, seed) == (a[2] * 37 + a[1] * 101 + (a[2] \div 256) * 11 + seed * 59) % 256

FlatByte(m, a, seed) == IF a \in DOMAIN m THEN m[a] ELSE Bg(a, seed)
RECURSIVE FlatRead(_, _, _, _)
FlatRead(m, seed, a, n) ==
  IF n = 0 THEN << >> ELSE <<FlatByte(m, a, seed)>> \o FlatRead(m, seed, AddN(a, 1), n - 1)
RECURSIVE FlatWrite(_, _, _)
FlatWrite(m, a, bs) ==
  IF bs = << >> THEN m ELSE FlatWrite((a :> Head(bs)) @@ m, AddN(a, 1), Tail(bs))

\* mock: regions is a sequence of [start, len]; m maps <<region, offset>> to bytes
\* offset of address a in a region, or -1
Offset(rg, a) ==
  LET d == Sub(a, rg.start) IN
  IF Ult(a, rg.start) \/ d[1] >= 128 THEN -1
  ELSE LET o == d[1] * B + d[2] IN IF o < rg.len THEN o ELSE -1
RECURSIVE FindFrom(_, _, _)
FindFrom(rgs, a, i) == IF i > Len(rgs) THEN 0
                       ELSE IF Offset(rgs[i], a) >= 0 THEN i ELSE FindFrom(rgs, a, i + 1)
Find(rgs, a) == FindFrom(rgs, a, 1)
MockByte(rgs, m, i, o) == IF o >= rgs[i].len THEN 0 ELSE IF <<i, o>> \in DOMAIN m THEN m[<<i, o>>] ELSE 0
MockRead(rgs, m, a, n) ==
  LET i == Find(rgs, a) IN
  IF i = 0 THEN [j \in 1..n |-> 0]
  ELSE LET o == Offset(rgs[i], a) IN [j \in 1..n |-> MockByte(rgs, m, i, o + j - 1)]
RECURSIVE MockPut(_, _, _, _, _)
MockPut(rgs, m, i, o, bs) ==
  IF bs = << >> \/ o >= rgs[i].len THEN m
  ELSE MockPut(rgs, (<<i, o>> :> Head(bs)) @@ m, i, o + 1, Tail(bs))
MockWriteMem(rgs, m, a, bs) ==
  LET i == Find(rgs, a) IN IF i = 0 THEN m ELSE MockPut(rgs, m, i, Offset(rgs[i], a), bs)
\* a block read ends at the end of its region; unmapped: nothing
Min2(x, y) == IF x < y THEN x ELSE y
MockReadBlock(rgs, m, a, n) ==
  LET i == Find(rgs, a) IN
  IF i = 0 THEN << >>
  ELSE LET o == Offset(rgs[i], a) IN
       [j \in 1..Min2(n, rgs[i].len - o) |-> MockByte(rgs, m, i, o + j - 1)]

\* little-endian bytes of a word, n = 1, 2, 4
WordBytes(w, n) == SubSeq(<<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>, 1, n)
BytesWord(bs) == CASE Len(bs) = 1 -> <<0, bs[1]>>
                   [] Len(bs) = 2 -> <<0, bs[1] + 256 * bs[2]>>
                   [] OTHER -> <<bs[3] + 256 * bs[4], bs[1] + 256 * bs[2]>>
=============================================================================
