-------------------------------- MODULE Facade --------------------------------
(* The CPU model as a view of its delegate: every way to name a register, and *)
(* the delegate access each operation makes.  Registers as in Device (0..55). *)
EXTENDS Device

\* lower-case a name
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerL == "abcdefghijklmnopqrstuvwxyz"
RECURSIVE PosIn(_, _, _)
PosIn(s, ch, i) == IF i > Len(s) THEN 0 ELSE IF SubSeq(s, i, i) = ch THEN i ELSE PosIn(s, ch, i + 1)
LowerCh(ch) == LET p == PosIn(Upper, ch, 1) IN IF p = 0 THEN ch ELSE SubSeq(LowerL, p, p)
RECURSIVE Lower(_)
Lower(t) == IF t = "" THEN "" ELSE LowerCh(SubSeq(t, 1, 1)) \o Lower(SubSeq(t, 2, Len(t)))
RECURSIVE DecText(_)
DecText(n) == LET dg == SubSeq("0123456789", (n % 10) + 1, (n % 10) + 1) IN
              IF n < 10 THEN dg ELSE DecText(n \div 10) \o dg
Special == [sp |-> SP, lr |-> LR, pc |-> PC, xpsr |-> XPSR, msp |-> MSP, psp |-> PSP, control |-> CONTROL,
            faultmask |-> FAULTMASK, basepri |-> BASEPRI, primask |-> PRIMASK, fpscr |-> 23]
NameTable == TLCEval(Special @@ [ n \in { "r" \o DecText(i) : i \in 0..15 } |->
                                    CHOOSE i \in 0..15 : n = "r" \o DecText(i) ]
                     @@ [ n \in { "s" \o DecText(i) : i \in 0..31 } |->
                                    24 + (CHOOSE i \in 0..31 : n = "s" \o DecText(i)) ])
IsName(t) == Lower(t) \in DOMAIN NameTable
\* the delegate's register numbers
Number(n) == CASE n >= 0 /\ n <= 18 -> n
               [] n = -1 -> PRIMASK [] n = -2 -> BASEPRI [] n = -3 -> FAULTMASK [] n = -4 -> CONTROL
               [] n = 33 -> 23
               [] n >= 64 /\ n <= 95 -> 24 + (n - 64)
               [] OTHER -> -1
FlagBit == [n |-> 31, z |-> 30, c |-> 29, v |-> 28]

\* register meant by <<how, argument>>
Reg(how, arg) ==
  CASE how = "name" -> NameTable[Lower(arg)]
    [] how = "num"  -> Number(arg)
    [] how = "r"    -> arg
    [] how = "s"    -> 24 + arg
    [] how = "attr" -> NameTable[arg]
    [] how = "flag" -> XPSR
\* what reading gives: value and width
ViewAt(r, i, how, arg) ==
  CASE how = "flag" -> [v |-> <<0, Bit(r[XPSR], FlagBit[arg])>>, w |-> 1]
    [] how = "ipsr" -> [v |-> <<0, r[XPSR][2] % 512>>, w |-> 9]
    [] how = "pc4"  -> [v |-> AddN(r[PC], 4), w |-> 32]
    [] OTHER -> [v |-> r[i], w |-> 32]
View(r, how, arg) == ViewAt(r, CASE how = "ipsr" -> XPSR [] how = "pc4" -> PC [] OTHER -> Reg(how, arg), how, arg)
\* thread mode without privilege is bit 0 of CONTROL
Privileged(r) == Bit(r[CONTROL], 0) = 0
\* the registers in hex, as dump() prints and repr() shows them
HexDigit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE HexFixed(_, _)
HexFixed(n, d) == IF d = 0 THEN "" ELSE HexFixed(n \div 16, d - 1) \o HexDigit[(n % 16) + 1]
Hex08(v) == HexFixed(v[1], 4) \o HexFixed(v[2], 4)
RECURSIVE HexShort(_)
HexShort(n) == IF n < 16 THEN HexDigit[n + 1] ELSE HexShort(n \div 16) \o HexDigit[(n % 16) + 1]
HexMin(v) == IF v[1] = 0 THEN HexShort(v[2]) ELSE HexShort(v[1]) \o HexFixed(v[2], 4)
DumpRow(r, k) ==
  LET Col(label, i) == label \o "=" \o Hex08(r[i]) IN
  Col("r" \o DecText(k), k) \o "    " \o Col("r" \o DecText(4 + k), 4 + k) \o "    "
  \o Col(IF k < 2 THEN "r" \o DecText(8 + k) \o " " ELSE "r" \o DecText(8 + k), 8 + k) \o "   "
  \o Col(<<"r12", "sp ", "lr ", "pc ">>[k + 1], 12 + k)
DumpText(r) == <<DumpRow(r, 0), DumpRow(r, 1), DumpRow(r, 2), DumpRow(r, 3), "">>
RECURSIVE ShortList(_, _)
ShortList(r, i) == HexMin(r[i]) \o (IF i = 14 THEN "" ELSE " " \o ShortList(r, i + 1))
ReprText(r) == "pc=" \o HexMin(r[PC]) \o " xpsr=" \o HexMin(r[XPSR]) \o " rN=[" \o ShortList(r, 0) \o "]>"
SetBit(w, n, b) == IF n >= 16 THEN <<w[1] - (Bit(w, n) * 2^(n - 16)) + b * 2^(n - 16), w[2]>>
                   ELSE <<w[1], w[2] - Bit(w, n) * 2^n + b * 2^n>>
\* the value that arrives at the delegate
Sent(r, how, arg, v) ==
  CASE how = "flag" -> SetBit(r[XPSR], FlagBit[arg], v[2] % 2)
    [] OTHER -> v
=============================================================================
