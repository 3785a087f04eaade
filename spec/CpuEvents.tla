------------------------------ MODULE CpuEvents ------------------------------
(* Checks recorded histories of the real decoder, formatter and instructions  *)
(* against the specification.  A chunk is a sequence of events on one machine:*)
(*  <<"R", mk, seed, it, dsp, fp, regs, regions>>    a machine is set up      *)
(*  <<"X", h1, h2, nb, pokes, mpokes, exc, rdiff, mdiff, rds, wrs>>           *)
(*        registers/memory are preset, the word is executed; all registers    *)
(*        and bytes that differ afterwards, and the bytes it read and wrote   *)
(*  <<"D", h1, h2, nb, addr, outcome, mnemonic, size, bytes, iaddr>>  decoded *)
(*  <<"T", h1, h2, nb, addr, text>>                   formatted               *)
(*  <<"L", h1, h2, nb, addr, rel, abs, exc, pc, rdiff, xpsr>>                 *)
(*        the relative and absolute label in the text of a branch or adr, and *)
(*        where executing it at that address went / what it put in a register *)
(* Step(s, event): the state after the event and the clauses it breaks; after *)
(* a broken event the observed state is taken over, so that the rest of the   *)
(* history is still checked.                                                  *)
EXTENDS Asm

Blank == [mk |-> "flat", seed |-> 0, it |-> 0, dsp |-> 0, fp |-> 0, m |-> EmptyMap,
          r |-> [i \in Regs |-> Zero], rgs |-> << >>]
Pair(x) == <<x[1], x[2]>>
Setup(e) ==
  [mk |-> e[2], seed |-> e[3], it |-> e[4], dsp |-> e[5], fp |-> e[6], m |-> EmptyMap,
   r |-> [i \in Regs |-> Pair(e[7][i + 1])],
   rgs |-> [i \in 1..Len(e[8]) |-> [start |-> <<e[8][i][1], e[8][i][2]>>, len |-> e[8][i][3]]]]

RECURSIVE PutRegs(_, _)
PutRegs(r, ps) == IF ps = << >> THEN r
                  ELSE PutRegs([r EXCEPT ![Head(ps)[1]] = <<Head(ps)[2], Head(ps)[3]>>], Tail(ps))
Key(t, a) == IF t.mk = "flat" THEN a ELSE LET i == Find(t.rgs, a) IN <<i, Offset(t.rgs[i], a)>>
RECURSIVE PutMem(_, _, _)
PutMem(t, m, ps) == IF ps = << >> THEN m
                    ELSE PutMem(t, (Key(t, Pair(Head(ps))) :> Head(ps)[3]) @@ m, Tail(ps))
ByteAt(t, m, k) == IF k \in DOMAIN m THEN m[k] ELSE IF t.mk = "flat" THEN Bg(k, t.seed) ELSE 0
\* the bytes of a sequence of <<address, count>>
BytesOf(xs) == UNION { { AddN(xs[i][1], j) : j \in 0..(xs[i][2] - 1) } : i \in 1..Len(xs) }
Acc(xs) == [i \in 1..Len(xs) |-> <<Pair(xs[i]), xs[i][3]>>]
WKeys(t, xs) ==
  IF t.mk = "flat" THEN BytesOf(xs)
  ELSE UNION { LET i == Find(t.rgs, xs[q][1]) IN
               IF i = 0 THEN {} ELSE LET o == Offset(t.rgs[i], xs[q][1]) IN
               { <<i, o + j>> : j \in { j \in 0..(xs[q][2] - 1) : o + j < t.rgs[i].len } } : q \in 1..Len(xs) }

-----------------------------------------------------------------------------
FlagBits(w) == w[1] \div 4096
FlagDiff(x, y) == FlagBits(x) ^^ FlagBits(y)
\* clauses broken by executing e,f from t, ending in registers ar and memory am
CheckExec(t, e, f, ev, ar, am) ==
  LET x  == Exec(t, e, f)
      w0 == x.wr
      wr == IF t.mk = "mock" /\ w0 \cap {SP, MSP, PSP, CONTROL} # {} THEN w0 \cup {SP, MSP, PSP} ELSE w0
      fr == \E i \in Regs \ (wr \cup {PC, XPSR}) : ar[i] # t.r[i]
      fx == XPSR \notin wr /\ ( \/ ar[XPSR][2] # t.r[XPSR][2]
                                \/ ar[XPSR][1] % 4096 # t.r[XPSR][1] % 4096
                                \/ (FlagDiff(ar[XPSR], t.r[XPSR]) & (15 - x.fl)) # 0 )
      vl == e.k # "msr" /\ \E i \in wr \ {PC} : ar[i] # x.r[i]
      fl == e.k # "msr" /\ (FlagDiff(ar[XPSR], x.r[XPSR]) & x.fl) # 0
      pc == ar[PC] # x.r[PC]
      wk == WKeys(t, x.wm)
      mv == \E k \in wk : ByteAt(t, am, k) # ByteAt(t, x.m, k)
      mf == \E k \in (DOMAIN am) \ wk : ByteAt(t, am, k) # ByteAt(t, t.m, k)
      wa == t.mk = "flat" /\ BytesOf(Acc(ev[11])) # BytesOf(x.wm)
      ra == t.mk = "flat" /\ BytesOf(Acc(ev[10])) # BytesOf(x.rd)
  IN (IF fr \/ fx \/ mf \/ (wa /\ ~(BytesOf(Acc(ev[11])) \subseteq BytesOf(x.wm))) THEN {"frame"} ELSE {}) \cup (IF vl THEN {"value"} ELSE {})
     \cup (IF fl THEN {"flags"} ELSE {}) \cup (IF pc THEN {"pc"} ELSE {})
     \cup (IF mv \/ wa THEN {"memory"} ELSE {}) \cup (IF ra THEN {"access"} ELSE {})

\* the label names the address a taken branch continues at / the value of adr
CheckLabel(e, f, ev) ==
  LET addr == Pair(ev[5])
      lab  == Label(IF e.k = "adr" THEN AdrValue(At(addr), e, f)
                    ELSE Add(AddN(addr, 4), BranchOffset(e, f)), addr)
      t    == [Blank EXCEPT !.r = [i \in Regs |-> CASE i = PC -> addr [] i = XPSR -> Pair(ev[11]) [] OTHER -> Zero]]
      x    == Exec(t, e, f)
      ar   == PutRegs([x.r EXCEPT ![PC] = Pair(ev[9])],
                      SelectSeq(ev[10], LAMBDA d : d[1] < 15))
      went == IF e.k = "adr" THEN ar[f["d"]] ELSE Pair(ev[9])
      claim == ~(e.k = "adr" /\ f["d"] \in {13, 15})
      taken == e.k # "bcond" \/ Holds(t.r, f["c"])
  IN (IF "." \o ev[6] # lab[1] THEN {"relative"} ELSE {})
     \cup (IF ev[7] # lab[2] THEN {"absolute"} ELSE {})
     \cup (IF ev[8] # "" THEN {"exception"} ELSE {})
     \cup (IF claim /\ taken /\ ev[7] # "0x" \o HexW(went) THEN {"target"} ELSE {})
     \cup (IF ~taken /\ went # AddN(addr, 2) THEN {"nottaken"} ELSE {})

Step(s, ev) ==
  CASE ev[1] = "R" -> [s |-> Setup(ev), bad |-> {}]
    [] ev[1] = "X" ->
         LET t  == [s EXCEPT !.r = PutRegs(s.r, ev[5]), !.m = PutMem(s, s.m, ev[6])]
             ar == PutRegs(t.r, ev[8])
             am == PutMem(t, t.m, ev[9])
             d  == DecodeN(ev[2], ev[3], ev[4])
         IN [s |-> [t EXCEPT !.r = ar, !.m = am],
             bad |-> IF d.st # "ok" THEN {"decode"}
                     ELSE IF ~Claimed(d.e, d.f) THEN {}
                     ELSE IF ev[7] # "" THEN {"exception"}
                     ELSE CheckExec(t, d.e, d.f, ev, ar, am)]
    [] ev[1] = "D" ->
         LET d == DecodeN(ev[2], ev[3], ev[4]) IN
         [s |-> s,
          bad |-> IF ev[6] # d.st THEN {"outcome"}
                  ELSE IF d.st # "ok" THEN {}
                  ELSE (IF ev[7] # Mnem(d.e, d.f) THEN {"mnemonic"} ELSE {})
                       \cup (IF ev[8] # Size(d.e) THEN {"size"} ELSE {})
                       \cup (IF ev[9] # SubSeq(<<ev[2] % 256, ev[2] \div 256, ev[3] % 256, ev[3] \div 256>>, 1, Size(d.e))
                             THEN {"bytes"} ELSE {})
                       \cup (IF Pair(ev[10]) # Pair(ev[5]) THEN {"address"} ELSE {})]
    [] ev[1] = "T" ->
         LET d == DecodeN(ev[2], ev[3], ev[4]) IN
         [s |-> s,
          bad |-> IF d.st # "ok" THEN {"decode"}
                  ELSE IF ev[6] # Text(d.e, d.f, ev[2], ev[3], Pair(ev[5]))
                  THEN {"text: " \o Text(d.e, d.f, ev[2], ev[3], Pair(ev[5]))} ELSE {}]
    [] ev[1] = "L" ->
         LET d == DecodeN(ev[2], ev[3], ev[4]) IN
         [s |-> s, bad |-> IF d.st # "ok" THEN {"decode"} ELSE CheckLabel(d.e, d.f, ev)]
=============================================================================
