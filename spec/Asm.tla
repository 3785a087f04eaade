--------------------------------- MODULE Asm ---------------------------------
(* The text of a decoded instruction at an address.                           *)
EXTENDS Isa

HexDigit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE HexN(_, _)
HexN(n, d) == IF d = 0 THEN "" ELSE HexN(n \div 16, d - 1) \o HexDigit[(n % 16) + 1]
RECURSIVE HexNat(_)
HexNat(n) == IF n < 16 THEN HexDigit[n + 1] ELSE HexNat(n \div 16) \o HexDigit[(n % 16) + 1]
Hex4(h) == HexN(h, 4)
Hex8(w) == HexN(w[1], 4) \o HexN(w[2], 4)
HexW(w) == IF w[1] = 0 THEN HexNat(w[2]) ELSE HexNat(w[1]) \o HexN(w[2], 4)
RECURSIVE DecNat(_)
DecNat(n) == IF n < 10 THEN HexDigit[n + 1] ELSE DecNat(n \div 10) \o HexDigit[(n % 10) + 1]
\* decimal text of an unsigned word
RECURSIVE DecW(_)
DecW(w) == IF w[1] = 0 THEN DecNat(w[2])
           ELSE LET q1 == w[1] \div 10
                    r1 == w[1] % 10
                    t  == r1 * 65536 + w[2]
                IN DecW(<<q1, t \div 10>>) \o HexDigit[(t % 10) + 1]
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
PadR(t, n) == t \o Spaces(n - Len(t))

RegName(i) == CASE i = 13 -> "sp" [] i = 14 -> "lr" [] i = 15 -> "pc" [] OTHER -> "r" \o DecNat(i)

\* {r0-r3,r5,lr}
RECURSIVE ListFrom(_, _)
RangeEnd(l, i) == CHOOSE j \in i..15 : (\A x \in i..j : InList(l, x)) /\ (j = 15 \/ ~InList(l, j + 1))
ListFrom(l, i) ==
  IF i > 15 THEN << >>
  ELSE IF ~InList(l, i) THEN ListFrom(l, i + 1)
  ELSE LET j == RangeEnd(l, i) IN
       <<IF i = j THEN RegName(i) ELSE RegName(i) \o "-" \o RegName(j)>> \o ListFrom(l, j + 1)
RECURSIVE Join(_, _)
Join(ts, sep) == IF ts = << >> THEN ""
                 ELSE IF Len(ts) = 1 THEN ts[1] ELSE Head(ts) \o sep \o Join(Tail(ts), sep)
RegListText(l) == "{" \o Join(ListFrom(l, 0), ",") \o "}"

\* An operand is <<text, comment>>; "" means none
Op(t) == <<t, "">>
Reg(i) == Op(RegName(i))
RegW(i, w) == Op(IF w THEN RegName(i) \o "!" ELSE RegName(i))
Imm(w) == <<"#" \o DecW(w), IF w[1] = 0 /\ w[2] <= 9 THEN "" ELSE "0x" \o HexW(w)>>
ImmN(n) == Imm(FromNat(n))
ShiftNames == [none |-> "None", lsl |-> "LSL", lsr |-> "LSR", asr |-> "ASR", ror |-> "ROR", rrx |-> "RRX"]
Shift(t, n) == Op(ShiftNames[t] \o " #" \o DecNat(n))
Lst(l) == Op(RegListText(l))
\* signed decimal with sign, from a word read as signed
SignedText(w) == IF Msb(w) = 1 THEN "-" \o DecW(Sub(Zero, w)) ELSE "+" \o DecW(w)
\* a label: where the instruction at addr goes to (or what it computes)
Label(target, addr) == <<"." \o SignedText(Sub(target, addr)), "0x" \o HexW(target)>>
Mem(parts) == LET ts == SelectSeq(parts, LAMBDA p : p[1] # "")
                  cs == SelectSeq(parts, LAMBDA p : p[2] # "")
              IN <<"[" \o Join([i \in 1..Len(ts) |-> ts[i][1]], ", ") \o "]",
                   Join([i \in 1..Len(cs) |-> cs[i][2]], " ")>>
ImmIfNonZero(w) == IF w = Zero THEN Op("") ELSE Imm(w)

SpecialNames == [n \in SpecialRegs |->
  CASE n = 0 -> "APSR" [] n = 1 -> "IAPSR" [] n = 2 -> "EAPSR" [] n = 3 -> "XPSR"
    [] n = 5 -> "IPSR" [] n = 6 -> "EPSR" [] n = 7 -> "IEPSR" [] n = 8 -> "MSP" [] n = 9 -> "PSP"
    [] n = 16 -> "PRIMASK" [] n = 17 -> "BASEPRI" [] n = 18 -> "BASEPRI_MAX"
    [] n = 19 -> "FAULTMASK" [] n = 20 -> "CONTROL"]
MaskSuffix(n, x) == IF n > 3 THEN ""
                    ELSE CASE x = 1 -> "_g" [] x = 2 -> "_nzcvq" [] x = 3 -> "_nzcvqg"

\* a CPU whose PC is addr: labels are what execution computes there
At(addr) == [r |-> [i \in Regs |-> IF i = PC THEN addr ELSE Zero]]

Operands(e, f, addr) ==
  LET k == e.k IN
  CASE k = "dp2" -> <<Reg(f["d"]), Reg(f["m"])>>
    [] k = "dpi" -> <<Reg(f["d"]), Reg(f["n"]), ImmN(f["i"])>>
    [] k = "dpi2" -> <<Reg(f["d"]), ImmN(f["i"])>>
    [] k = "dp3" -> <<Reg(f["d"]), Reg(f["n"]), Reg(f["m"])>>
    [] k = "addhi" -> <<Reg(f["d"]), Reg(f["m"])>>
    [] k = "addsp" -> <<Reg(f["d"]), Reg(SP), ImmN(f["i"] * 4)>>
    [] k = "addspr1" -> <<Reg(f["d"]), Reg(SP), Reg(f["d"])>>
    [] k = "addspr2" -> <<Reg(SP), Reg(f["m"])>>
    [] k = "spimm" -> <<Reg(SP), ImmN(f["i"] * 4)>>
    [] k = "rsb0" -> <<Reg(f["d"]), Reg(f["n"]), ImmN(0)>>
    [] k = "rsbw" -> <<Reg(f["d"]), Reg(f["n"]), Imm(ThumbExpand(f["i"]))>>
    [] k = "mul2" -> <<Reg(f["d"]), Reg(f["n"]), Reg(f["d"])>>
    [] k = "mul3" -> <<Reg(f["d"]), Reg(f["n"]), Reg(f["m"])>>
    [] k = "adr" -> <<Reg(f["d"]), Label(AdrValue(At(addr), e, f), addr)>>
    [] k = "cmpi" -> <<Reg(f["n"]), ImmN(f["i"])>>
    [] k = "cmpr" -> <<Reg(f["n"]), Reg(f["m"])>>
    [] k = "cmpw" -> <<Reg(f["n"]), Imm(ThumbExpand(f["i"]))>>
    [] k = "shr" -> <<Reg(f["d"]), Reg(f["m"])>>
    [] k = "shi" -> <<Reg(f["d"]), Reg(f["m"]),
                      ImmN(IF f["i"] = 0 /\ e.a # "lsl" THEN 32 ELSE f["i"])>>
    [] k \in {"movhi", "movs", "movw3", "mvn", "ext", "rev"} ->
         <<Reg(f["d"]), Reg(f["m"])>> \o
         (IF k = "ext" /\ e.is32 /\ f["r"] # 0 THEN <<Shift("ror", 8 * f["r"])>> ELSE << >>)
    [] k = "movi" -> <<Reg(f["d"]), ImmN(f["i"])>>
    [] k = "moviw" -> <<Reg(f["d"]), Imm(ThumbExpand(f["i"]))>>
    [] k = "movw" -> <<Reg(f["d"]), ImmN(f["j"] * 4096 + f["i"])>>
    [] k = "mvnw" -> LET h == DecodeImmShift(f["y"], f["i"]) IN <<Reg(f["d"]), Reg(f["m"]), Shift(h.t, h.n)>>
    [] k = "tst" -> <<Reg(f["n"]), Reg(f["m"])>>
    [] k = "tstw" -> LET h == DecodeImmShift(f["y"], f["i"]) IN
                     <<Reg(f["n"]), Reg(f["m"])>> \o (IF h.n # 0 THEN <<Shift(h.t, h.n)>> ELSE << >>)
    [] k = "lsr" -> <<Reg(f["t"]), Mem(<<Reg(f["n"]), Reg(f["m"])>>)>>
    [] k = "lsrw" -> <<Reg(f["t"]), Mem(<<Reg(f["n"]), Reg(f["m"]), Shift("lsl", f["x"])>>)>>
    [] k = "lsi" -> <<Reg(f["t"]), Mem(<<Reg(f["n"]), ImmIfNonZero(FromNat(f["i"] * e.a[2]))>>)>>
    [] k = "lssp" -> <<Reg(f["t"]), Mem(<<Reg(SP), ImmIfNonZero(FromNat(f["i"] * 4))>>)>>
    [] k = "lit" -> <<Reg(f["t"]), Mem(<<Reg(PC), ImmN(f["i"] * 4)>>)>>
    [] k = "litw" -> <<Reg(f["t"]), Mem(<<Reg(PC),
                        IF f["U"] = 1 \/ f["i"] = 0 THEN ImmIfNonZero(FromNat(f["i"]))
                        ELSE Op("#-" \o DecNat(f["i"]))>>)>>
    [] k \in {"push", "push1", "pop", "pop1"} -> <<Lst(RegList(e, f))>>
    [] k = "stm" -> <<RegW(f["n"], TRUE), Lst(f["r"])>>
    [] k = "ldm" -> <<RegW(f["n"], ~InList(f["r"], f["n"])), Lst(f["r"])>>
    [] k \in {"stmw", "ldmw"} -> <<RegW(f["n"], f["W"] = 1), Lst(RegList(e, f))>>
    [] k \in {"bcond", "b", "bl"} -> <<Label(Add(AddN(addr, 4), BranchOffset(e, f)), addr)>>
    [] k \in {"bx", "blx"} -> <<Reg(f["m"])>>
    [] k = "cps" -> <<Op((IF f["I"] = 1 THEN "i" ELSE "") \o (IF f["F"] = 1 THEN "f" ELSE ""))>>
    [] k = "immop" -> <<ImmN(f["i"])>>
    [] k = "mrs" -> <<Reg(f["d"]), Op(SpecialNames[f["s"]])>>
    [] k = "msr" -> <<Op(SpecialNames[f["s"]] \o MaskSuffix(f["s"], f["x"])), Reg(f["n"])>>
    [] k = "hint" -> << >>
    [] k = "barrier" -> <<Op(IF f["o"] = 15 THEN "sy" ELSE "#" \o DecNat(f["o"]))>>

Text(e, f, h1, h2, addr) ==
  LET ops == Operands(e, f, addr)
      cs  == SelectSeq(ops, LAMBDA o : o[2] # "")
      hex == IF e.is32 THEN Hex4(h1) \o " " \o Hex4(h2) ELSE Hex4(h1)
      t   == PadR(hex, 12) \o " " \o PadR(Mnem(e, f), 8)
             \o Join([i \in 1..Len(ops) |-> ops[i][1]], ", ")
  IN IF cs = << >> THEN t
     ELSE PadR(t, 36) \o " ; " \o Join([i \in 1..Len(cs) |-> cs[i][2]], " ")
=============================================================================
