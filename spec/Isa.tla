--------------------------------- MODULE Isa ---------------------------------
(* What executing a decoded instruction does to the machine.                  *)
(*   s.r    registers 0..22 (RegFile)       s.mk  "flat" | "mock"             *)
(*   s.m    memory contents (Memory)        s.seed / s.rgs  background / regions *)
(*   s.it   inside an IT block (0/1)        s.dsp, s.fp  CPU extensions (0/1) *)
(* Exec(s, e, f) is a record:                                                 *)
(*   r, m   registers and memory afterwards                                   *)
(*   wr     registers it may write (besides the PC)                           *)
(*   fl     which of the flags <<N, Z, C, V>> it may write, as a 4-bit number *)
(*   rd, wm bytes read and written, as a sequence of <<address, count>>       *)
EXTENDS Decode, RegFile, Memory

-----------------------------------------------------------------------------
(* Immediates *)
DecodeImmShift(y, n) ==
  CASE y = 0 -> [t |-> "lsl", n |-> n]
    [] y = 1 -> [t |-> "lsr", n |-> IF n = 0 THEN 32 ELSE n]
    [] y = 2 -> [t |-> "asr", n |-> IF n = 0 THEN 32 ELSE n]
    [] y = 3 -> IF n = 0 THEN [t |-> "rrx", n |-> 1] ELSE [t |-> "ror", n |-> n]
Rotated(i12) == i12 \div 1024 # 0
ThumbExpand(i12) ==
  LET b == i12 % 256 IN
  IF ~Rotated(i12)
  THEN CASE i12 \div 256 = 0 -> <<0, b>>
         [] i12 \div 256 = 1 -> <<b, b>>
         [] i12 \div 256 = 2 -> <<b * 256, b * 256>>
         [] i12 \div 256 = 3 -> <<b * 257, b * 257>>
  ELSE Ror(<<0, 128 + (i12 % 128)>>, i12 \div 128)

-----------------------------------------------------------------------------
(* State access *)
R(s, i) == s.r[i]
Put(s, r, i, v) == WriteReg(s.mk, r, i, v)
ReadMem(s, a, n) == IF s.mk = "mock" THEN MockRead(s.rgs, s.m, a, n) ELSE FlatRead(s.m, s.seed, a, n)
WriteMem(s, m, a, bs) == IF s.mk = "mock" THEN MockWriteMem(s.rgs, m, a, bs) ELSE FlatWrite(m, a, bs)
FN(r) == Bit(r[XPSR], 31)  FZ(r) == Bit(r[XPSR], 30)
FC(r) == Bit(r[XPSR], 29)  FV(r) == Bit(r[XPSR], 28)
\* xPSR with flags n z c v (0/1, or 2 = unchanged)
Flag(old, new) == IF new = 2 THEN old ELSE new
SetFlags(r, n, z, c, v) ==
  LET x == r[XPSR] IN
  [r EXCEPT ![XPSR] = << (x[1] % 4096) + Flag(FN(r), n) * 32768 + Flag(FZ(r), z) * 16384
                         + Flag(FC(r), c) * 8192 + Flag(FV(r), v) * 4096, x[2] >>]
ZBit(w) == IF w = Zero THEN 1 ELSE 0
Advance(s, r, e) == [r EXCEPT ![PC] = AddN(s.r[PC], Size(e))]
Pc4(s) == AddN(s.r[PC], 4)
ClearBit0(w) == <<w[1], w[2] - (w[2] % 2)>>

Effect(r, m, wr, fl, rd, wm) == [r |-> r, m |-> m, wr |-> wr, fl |-> fl, rd |-> rd, wm |-> wm]

\* a data-processing result: destination d, value w, flags wanted (set?), mask of
\* flags the class defines, carry/overflow (2 = unchanged)
Result(s, e, d, w, set, fl, c, v) ==
  IF d = PC
  THEN Effect([s.r EXCEPT ![PC] = ClearBit0(w)], s.m, {}, 0, << >>, << >>)
  ELSE LET r1 == Put(s, s.r, d, w)
           r2 == IF set THEN SetFlags(r1, Msb(w), ZBit(w), c, v) ELSE r1
       IN Effect(Advance(s, r2, e), s.m, {d}, IF set THEN fl ELSE 0, << >>, << >>)
\* flags only
FlagsOnly(s, e, w, fl, c, v) ==
  Effect(Advance(s, SetFlags(s.r, Msb(w), ZBit(w), c, v), e), s.m, {}, fl, << >>, << >>)
NotIT(s) == s.it = 0
NZ == 12  NZC == 14  NZCV == 15

\* add-like operations
Arith(s, op, x, y) ==
  CASE op = "add" -> AddWithCarry(x, y, 0)
    [] op = "adc" -> AddWithCarry(x, y, FC(s.r))
    [] op = "sub" -> AddWithCarry(x, WNot(y), 1)
    [] op = "sbc" -> AddWithCarry(x, WNot(y), FC(s.r))
    [] op = "rsb" -> AddWithCarry(WNot(x), y, 1)
    [] op = "cmp" -> AddWithCarry(x, WNot(y), 1)
    [] op = "cmn" -> AddWithCarry(x, y, 0)
ArithTo(s, e, d, op, x, y, set) ==
  LET a == Arith(s, op, x, y) IN Result(s, e, d, a.r, set, NZCV, a.c, a.v)
CompareTo(s, e, op, x, y) ==
  LET a == Arith(s, op, x, y) IN FlagsOnly(s, e, a.r, NZCV, a.c, a.v)
Logic(op, x, y) ==
  CASE op = "and" -> WAnd(x, y)
    [] op = "eor" -> WXor(x, y)
    [] op = "orr" -> WOr(x, y)
    [] op = "bic" -> WAnd(x, WNot(y))
ShiftTo(s, e, d, x, t, n, set) ==
  LET h == ShiftC(x, t, n, FC(s.r)) IN Result(s, e, d, h.r, set, NZC, h.c, 2)

-----------------------------------------------------------------------------
(* Single transfers *)
LoadTo(s, e, t, a) ==
  LET n  == e.a[2]
      w0 == BytesWord(ReadMem(s, a, n))
      w  == IF e.a[3] = 1 THEN Sext(w0[2], 8 * n) ELSE w0
      r1 == Put(s, s.r, t, w)
  IN Effect(IF t = PC THEN r1 ELSE Advance(s, r1, e), s.m, {t} \ {PC}, 0, << <<a, n>> >>, << >>)
StoreFrom(s, e, t, a) ==
  LET n == e.a[2] IN
  Effect(Advance(s, s.r, e), WriteMem(s, s.m, a, WordBytes(R(s, t), n)), {}, 0, << >>, << <<a, n>> >>)
Transfer(s, e, t, a) == IF e.a[1] = 1 THEN LoadTo(s, e, t, a) ELSE StoreFrom(s, e, t, a)

-----------------------------------------------------------------------------
(* Multiple transfers: registers lst (16-bit mask) from address a upwards *)
RECURSIVE LoadList(_, _, _, _, _)
LoadList(s, r, lst, i, a) ==          \* registers afterwards
  IF i > 15 THEN r
  ELSE IF InList(lst, i) THEN LoadList(s, Put(s, r, i, BytesWord(ReadMem(s, a, 4))), lst, i + 1, AddN(a, 4))
  ELSE LoadList(s, r, lst, i + 1, a)
RECURSIVE StoreList(_, _, _, _, _, _)
StoreList(s, r, m, lst, i, a) ==
  IF i > 15 THEN m
  ELSE IF InList(lst, i) THEN StoreList(s, r, WriteMem(s, m, a, WordBytes(r[i], 4)), lst, i + 1, AddN(a, 4))
  ELSE StoreList(s, r, m, lst, i + 1, a)
RegSet(lst) == { i \in 0..15 : InList(lst, i) }
Words(a, lst) == [j \in 1..Weight(lst) |-> <<AddN(a, 4 * (j - 1)), 4>>]

PushList(s, e, lst) ==
  LET a == SubN(R(s, SP), 4 * Weight(lst))
      r1 == Put(s, s.r, SP, a)
  IN Effect(Advance(s, r1, e), StoreList(s, s.r, s.m, lst, 0, a), {SP}, 0, << >>, Words(a, lst))
PopList(s, e, lst) ==
  LET a == R(s, SP)
      r0 == IF InList(lst, PC) THEN s.r ELSE Advance(s, s.r, e)
      r1 == Put(s, r0, SP, AddN(a, 4 * Weight(lst)))
  IN Effect(LoadList(s, r1, lst, 0, a), s.m, (RegSet(lst) \ {PC}) \cup {SP}, 0, Words(a, lst), << >>)
StoreMulti(s, e, n, lst, wback) ==
  LET a == R(s, n)
      r1 == IF wback THEN Put(s, s.r, n, AddN(a, 4 * Weight(lst))) ELSE s.r
  IN Effect(Advance(s, r1, e), StoreList(s, s.r, s.m, lst, 0, a), IF wback THEN {n} ELSE {}, 0, << >>, Words(a, lst))
LoadMulti(s, e, n, lst, wback) ==
  LET a == R(s, n)
      r0 == IF InList(lst, PC) THEN s.r ELSE Advance(s, s.r, e)
      r1 == LoadList(s, r0, lst, 0, a)
      r2 == IF wback /\ ~InList(lst, n) THEN Put(s, r1, n, AddN(a, 4 * Weight(lst))) ELSE r1
  IN Effect(r2, s.m, (RegSet(lst) \ {PC}) \cup (IF wback THEN {n} ELSE {}), 0, Words(a, lst), << >>)

-----------------------------------------------------------------------------
(* Branches *)
Holds(r, c) ==
  CASE c = 0  -> FZ(r) = 1
    [] c = 1  -> FZ(r) = 0
    [] c = 2  -> FC(r) = 1
    [] c = 3  -> FC(r) = 0
    [] c = 4  -> FN(r) = 1
    [] c = 5  -> FN(r) = 0
    [] c = 6  -> FV(r) = 1
    [] c = 7  -> FV(r) = 0
    [] c = 8  -> FC(r) = 1 /\ FZ(r) = 0
    [] c = 9  -> FC(r) = 0 \/ FZ(r) = 1
    [] c = 10 -> FN(r) = FV(r)
    [] c = 11 -> FN(r) # FV(r)
    [] c = 12 -> FZ(r) = 0 /\ FN(r) = FV(r)
    [] c = 13 -> FZ(r) = 1 \/ FN(r) # FV(r)
    [] OTHER  -> TRUE
BranchOffset(e, f) ==
  CASE e.k = "bcond" -> Sext(f["i"] * 2, 9)
    [] e.k = "b" -> Sext(f["i"] * 2, 12)
    [] e.k = "bl" ->
         LET i1 == 1 - ((f["J"] + f["S"]) % 2)
             i2 == 1 - ((f["K"] + f["S"]) % 2)
             v  == (i1 * 2 + i2) * 4194304 + f["i"] * 4096 + f["j"] * 2
         IN IF f["S"] = 1 THEN Sub(FromNat(v), FromNat(16777216)) ELSE FromNat(v)
Goto(s, r, w) == Effect([r EXCEPT ![PC] = w], s.m, {}, 0, << >>, << >>)

-----------------------------------------------------------------------------
(* Special registers *)
Priv(s) == Bit(R(s, CONTROL), 0) = 0
SpecialValue(s, n) ==
  CASE n < 8 ->
         LET x == R(s, XPSR)
             lo == IF n % 2 = 1 THEN x[2] % 512 ELSE 0
             hi == IF (n \div 4) % 2 = 0
                   THEN (x[1] \div 2048) * 2048 + (IF s.dsp = 1 THEN x[1] % 16 ELSE 0)
                   ELSE 0
         IN <<hi, lo>>
    [] n = 8  -> IF Priv(s) THEN R(s, MSP) ELSE Zero
    [] n = 9  -> IF Priv(s) THEN R(s, PSP) ELSE Zero
    [] n = 16 -> IF Priv(s) THEN <<0, R(s, PRIMASK)[2] % 2>> ELSE Zero
    [] n \in {17, 18} -> IF Priv(s) THEN <<0, R(s, BASEPRI)[2] % 256>> ELSE Zero
    [] n = 19 -> IF Priv(s) THEN <<0, R(s, FAULTMASK)[2] % 2>> ELSE Zero
    [] n = 20 -> <<0, R(s, CONTROL)[2] % (IF s.fp = 1 THEN 8 ELSE 4)>>

-----------------------------------------------------------------------------
ExtendValue(a, w, rot) ==
  LET x == Ror(w, 8 * rot)  b == x[2] % 256 IN
  CASE a = "sh" -> Sext(x[2], 16)
    [] a = "uh" -> <<0, x[2]>>
    [] a = "sb" -> Sext(b, 8)
    [] a = "ub" -> <<0, b>>
Swap(h) == (h % 256) * 256 + h \div 256
RevValue(a, w) ==
  CASE a = "rev"   -> <<Swap(w[2]), Swap(w[1])>>
    [] a = "rev16" -> <<Swap(w[1]), Swap(w[2])>>
    [] a = "revsh" -> Sext(Swap(w[2]), 16)

AdrValue(s, e, f) ==
  LET base == AlignTo(Pc4(s), 2) IN
  CASE e.a = "add4" -> AddN(base, f["i"] * 4)
    [] e.a = "add"  -> AddN(base, f["i"])
    [] e.a = "sub"  -> SubN(base, f["i"])

Exec(s, e, f) ==
  LET k == e.k
      D == f["d"]  N == f["n"]  M == f["m"]
      I == <<0, f["i"]>>
  IN
  CASE k = "dp2" ->
         IF e.a \in {"adc", "sbc"} THEN ArithTo(s, e, D, e.a, R(s, D), R(s, M), NotIT(s))
         ELSE Result(s, e, D, Logic(e.a, R(s, D), R(s, M)), NotIT(s), NZ, 2, 2)
    [] k = "dpi"   -> ArithTo(s, e, D, e.a, R(s, N), I, NotIT(s))
    [] k = "dpi2"  -> ArithTo(s, e, D, e.a, R(s, D), I, NotIT(s))
    [] k = "dp3"   -> ArithTo(s, e, D, e.a, R(s, N), R(s, M), NotIT(s))
    [] k = "addhi" -> ArithTo(s, e, D, "add", R(s, D), R(s, M), FALSE)
    [] k = "addsp" -> ArithTo(s, e, D, "add", R(s, SP), FromNat(f["i"] * 4), FALSE)
    [] k = "addspr1" -> ArithTo(s, e, D, "add", R(s, SP), R(s, D), FALSE)
    [] k = "addspr2" -> ArithTo(s, e, SP, "add", R(s, SP), R(s, M), FALSE)
    [] k = "spimm" -> ArithTo(s, e, SP, e.a, R(s, SP), FromNat(f["i"] * 4), FALSE)
    [] k = "rsb0"  -> ArithTo(s, e, D, "rsb", R(s, N), Zero, NotIT(s))
    [] k = "rsbw"  -> ArithTo(s, e, D, "rsb", R(s, N), ThumbExpand(f["i"]), f["S"] = 1)
    [] k = "mul2"  -> Result(s, e, D, Mul(R(s, N), R(s, D)), NotIT(s), NZ, 2, 2)
    [] k = "mul3"  -> Result(s, e, D, Mul(R(s, N), R(s, M)), FALSE, NZ, 2, 2)
    [] k = "adr"   -> Result(s, e, D, AdrValue(s, e, f), FALSE, 0, 2, 2)
    [] k = "cmpi"  -> CompareTo(s, e, e.a, R(s, N), I)
    [] k = "cmpr"  -> CompareTo(s, e, e.a, R(s, N), R(s, M))
    [] k = "cmpw"  -> CompareTo(s, e, e.a, R(s, N), ThumbExpand(f["i"]))
    [] k = "shr"   -> ShiftTo(s, e, D, R(s, D), e.a, R(s, M)[2] % 256, NotIT(s))
    [] k = "shi"   -> LET h == DecodeImmShift(CASE e.a = "lsl" -> 0 [] e.a = "lsr" -> 1 [] e.a = "asr" -> 2, f["i"])
                      IN ShiftTo(s, e, D, R(s, M), h.t, h.n, NotIT(s))
    [] k = "movhi" -> Result(s, e, D, R(s, M), FALSE, 0, 2, 2)
    [] k = "movs"  -> Result(s, e, D, R(s, M), TRUE, NZ, 2, 2)
    [] k = "movw3" -> Result(s, e, D, R(s, M), f["S"] = 1, NZ, 2, 2)
    [] k = "movi"  -> Result(s, e, D, I, NotIT(s), NZ, 2, 2)
    [] k = "moviw" -> LET w == ThumbExpand(f["i"]) IN
                      Result(s, e, D, w, f["S"] = 1, NZC, IF Rotated(f["i"]) THEN Msb(w) ELSE 2, 2)
    [] k = "movw"  -> Result(s, e, D, <<0, f["j"] * 4096 + f["i"]>>, FALSE, 0, 2, 2)
    [] k = "mvn"   -> Result(s, e, D, WNot(R(s, M)), NotIT(s), NZ, 2, 2)
    [] k = "mvnw"  -> LET h == DecodeImmShift(f["y"], f["i"])
                          x == ShiftC(R(s, M), h.t, h.n, FC(s.r))
                      IN Result(s, e, D, WNot(x.r), f["S"] = 1, NZC, x.c, 2)
    [] k = "tst"   -> FlagsOnly(s, e, WAnd(R(s, N), R(s, M)), NZC, 2, 2)
    [] k = "tstw"  -> LET h == DecodeImmShift(f["y"], f["i"])
                          x == ShiftC(R(s, M), h.t, h.n, FC(s.r))
                      IN FlagsOnly(s, e, WAnd(R(s, N), x.r), NZC, x.c, 2)
    [] k = "ext"   -> Result(s, e, D, ExtendValue(e.a, R(s, M), IF e.is32 THEN f["r"] ELSE 0), FALSE, 0, 2, 2)
    [] k = "rev"   -> Result(s, e, D, RevValue(e.a, R(s, M)), FALSE, 0, 2, 2)
    [] k = "lsr"   -> Transfer(s, e, f["t"], Add(R(s, N), R(s, M)))
    [] k = "lsrw"  -> Transfer(s, e, f["t"], Add(R(s, N), Lsl(R(s, M), f["x"])))
    [] k = "lsi"   -> Transfer(s, e, f["t"], AddN(R(s, N), f["i"] * e.a[2]))
    [] k = "lssp"  -> Transfer(s, e, f["t"], AddN(R(s, SP), f["i"] * 4))
    [] k = "lit"   -> Transfer(s, e, f["t"], AddN(AlignTo(Pc4(s), 2), f["i"] * 4))
    [] k = "litw"  -> Transfer(s, e, f["t"], IF f["U"] = 1 THEN AddN(AlignTo(Pc4(s), 2), f["i"])
                                             ELSE SubN(AlignTo(Pc4(s), 2), f["i"]))
    [] k \in {"push", "push1"} -> PushList(s, e, RegList(e, f))
    [] k \in {"pop", "pop1"}   -> PopList(s, e, RegList(e, f))
    [] k = "stm"   -> StoreMulti(s, e, N, f["r"], TRUE)
    [] k = "stmw"  -> StoreMulti(s, e, N, RegList(e, f), f["W"] = 1)
    [] k = "ldm"   -> LoadMulti(s, e, N, f["r"], TRUE)
    [] k = "ldmw"  -> LoadMulti(s, e, N, RegList(e, f), f["W"] = 1)
    [] k = "bcond" -> IF Holds(s.r, f["c"]) THEN Goto(s, s.r, Add(Pc4(s), BranchOffset(e, f)))
                      ELSE Goto(s, s.r, AddN(s.r[PC], 2))
    [] k = "b"     -> Goto(s, s.r, Add(Pc4(s), BranchOffset(e, f)))
    [] k = "bl"    -> LET p == Pc4(s) IN
                      [Goto(s, [s.r EXCEPT ![LR] = WOr(p, One)], Add(p, BranchOffset(e, f))) EXCEPT !.wr = {LR}]
    [] k = "blx"   -> [Goto(s, [s.r EXCEPT ![LR] = WOr(AddN(s.r[PC], 2), One)], ClearBit0(R(s, M))) EXCEPT !.wr = {LR}]
    [] k = "bx"    -> Goto(s, s.r, ClearBit0(R(s, M)))
    [] k = "cps"   -> LET v == <<0, f["x"]>>
                          r1 == IF f["I"] = 1 THEN Put(s, s.r, PRIMASK, v) ELSE s.r
                          r2 == IF f["F"] = 1 THEN Put(s, r1, FAULTMASK, v) ELSE r1
                      IN Effect(Advance(s, r2, e), s.m,
                                (IF f["I"] = 1 THEN {PRIMASK} ELSE {}) \cup (IF f["F"] = 1 THEN {FAULTMASK} ELSE {}),
                                0, << >>, << >>)
    [] k = "mrs"   -> Result(s, e, D, SpecialValue(s, f["s"]), FALSE, 0, 2, 2)
    \* the values msr leaves in special registers are not specified here
    [] k = "msr"   -> [Effect(Advance(s, s.r, e), s.m, {SP} \cup 16..22, 15, << >>, << >>) EXCEPT !.fl = 15]
    [] k \in {"hint", "immop", "barrier"} -> Effect(Advance(s, s.r, e), s.m, {}, 0, << >>, << >>)

\* Encodings whose execution the architecture calls UNPREDICTABLE although they
\* decode: no claim is made about their effect.
Claimed(e, f) ==
  CASE e.k \in {"rsbw","mul3","adr","movw3","moviw","movw","mvnw","ext","rev","mrs"} ->
         "d" \in DOMAIN f /\ f["d"] # 15 /\ ~(e.k = "movw3" /\ f["m"] = 15)
    [] e.k = "lsrw" -> f["t"] # 15 \/ (e.a[1] = 1 /\ e.a[2] = 4)
    [] e.k = "litw" -> TRUE
    [] e.k \in {"bx", "blx"} -> f["m"] # 15
    [] e.k = "pop1" -> f["t"] # 13
    [] e.k = "stm" -> ~InList(f["r"], f["n"]) \/ f["r"] % 2^f["n"] = 0
    [] OTHER -> TRUE
=============================================================================
