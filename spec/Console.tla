------------------------------- MODULE Console -------------------------------
(* The interactive console: what a line typed by the user does to the machine *)
(* and what is printed. A line is a sequence of characters. The state is      *)
(*   t     the machine (Prog)                                                 *)
(*   last  the line that an empty line repeats                                *)
(*   free  something happened whose effect is not described; nothing more is  *)
(*         claimed in this session                                            *)
(*   done  the session has ended                                              *)
(* Running a line gives [s |-> state afterwards, out |-> expected output], a  *)
(* sequence of  <<"is", text>>  <<"err">> an error message  <<"undef">> a     *)
(* report of an undefined instruction  <<"any">> any lines  <<"oops">> a      *)
(* complaint of any kind  <<"fail">> one about a Python expression            *)
(* White space at ends and repeated white space in output do not matter.      *)
EXTENDS Prog, Stream
Fc == INSTANCE Facade
Names == Fc!NameTable

\* ------------------------------------------------------------------- text
Blanks == {" ", "\t"}
LowC(c) == Fc!LowerCh(c)
LowTok(cs) == [i \in 1..Len(cs) |-> LowC(cs[i])]
RECURSIVE Str(_)
Str(cs) == IF cs = << >> THEN "" ELSE Head(cs) \o Str(Tail(cs))
RECURSIVE SplitAt(_, _, _)
\* pieces between separators; acc is the piece being read
SplitAt(cs, S, acc) == IF cs = << >> THEN <<acc>>
                       ELSE IF Head(cs) \in S THEN <<acc>> \o SplitAt(Tail(cs), S, << >>)
                       ELSE SplitAt(Tail(cs), S, Append(acc, Head(cs)))
Pieces(cs, S) == SplitAt(cs, S, << >>)
NonEmpty(ps) == SelectSeq(ps, LAMBDA p : p # << >>)
Tokens(cs) == NonEmpty(Pieces(cs, Blanks))
Drop(cs, c) == SelectSeq(cs, LAMBDA x : x # c)
RECURSIVE SqueezeS(_, _, _)
\* single spaces, none at the ends; p: something has been written, g: a space is due
SqueezeS(t, p, g) == IF t = "" THEN ""
  ELSE LET c == SubSeq(t, 1, 1) r == SubSeq(t, 2, Len(t)) IN
       IF c = " " THEN SqueezeS(r, p, p)
       ELSE (IF g THEN " " ELSE "") \o c \o SqueezeS(r, TRUE, FALSE)
Squeeze(t) == SqueezeS(t, FALSE, FALSE)
Is(t) == <<"is", Squeeze(t)>>

\* ----------------------------------------------------------------- numbers
HexVal == [c \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"} |-> (CHOOSE i \in 1..16 : HexDigit[i] = c) - 1]
BadNum == [ok |-> FALSE, neg |-> FALSE, w |-> Zero, big |-> FALSE]
RECURSIVE Digits(_, _, _, _)
Digits(cs, base, w, big) ==
  IF cs = << >> THEN [ok |-> TRUE, neg |-> FALSE, w |-> w, big |-> big]
  ELSE LET c == Head(cs) IN
       IF c \notin DOMAIN HexVal THEN BadNum
       ELSE IF HexVal[c] >= base THEN BadNum
       ELSE LET lo == w[2] * base + HexVal[c]  hi == w[1] * base + lo \div 65536 IN
            Digits(Tail(cs), base, <<hi % 65536, lo % 65536>>, big \/ hi > 65535)
Magnitude(cs) ==
  LET p == IF Len(cs) >= 2 /\ cs[1] = "0" THEN cs[2] ELSE ""
      r == SubSeq(cs, 3, Len(cs)) IN
  IF cs = << >> THEN BadNum
  ELSE IF p \in {"x", "b", "o"} THEN (IF r = << >> THEN BadNum ELSE
         Digits(r, CASE p = "x" -> 16 [] p = "b" -> 2 [] p = "o" -> 8, Zero, FALSE))
  ELSE IF cs[1] = "0" /\ (\E i \in 1..Len(cs) : cs[i] # "0") THEN BadNum
  ELSE Digits(cs, 10, Zero, FALSE)
Number(cs) == IF cs # << >> /\ Head(cs) \in {"-", "+"}
              THEN [Magnitude(Tail(cs)) EXCEPT !.neg = (Head(cs) = "-")] ELSE Magnitude(cs)
WordOf(n) == IF n.neg THEN Sub(Zero, n.w) ELSE n.w
\* the sum of an address and a signed number, or "none" when it is not an address
Plus(w, n) == LET s == AddWithCarry(w, IF n.neg THEN WNot(n.w) ELSE n.w, IF n.neg THEN 1 ELSE 0) IN
              IF n.big THEN "none"
              ELSE IF n.neg THEN (IF s.c = 0 THEN "none" ELSE "ok") ELSE IF s.c = 1 THEN "none" ELSE "ok"
SignedDec(n) == IF n.neg /\ n.w # Zero THEN "-" \o DecW(n.w) ELSE DecW(n.w)

\* --------------------------------------------------------------- arguments
\* st: "ok", "err" (rejected), "any" (nothing there to read)
Arg(st, n, out) == [st |-> st, n |-> n, out |-> out]
Word2Num(w) == [ok |-> TRUE, neg |-> FALSE, w |-> w, big |-> FALSE]
Plain(t, cs) ==
  IF Str(cs) \in DOMAIN Names
  THEN LET v == t.r[Names[Str(cs)]] IN Arg("ok", Word2Num(v), <<Is(Str(cs) \o " = 0x" \o Hex8(v))>>)
  ELSE LET n == Number(cs) IN Arg(IF n.ok THEN "ok" ELSE "err", n, << >>)
Value(t, tok) ==
  LET cs == Drop(LowTok(tok), "_") IN
  IF cs = << >> \/ Head(cs) # "[" THEN Plain(t, cs)
  ELSE LET body == SubSeq(cs, 2, Len(cs) - 1)
           ps   == Pieces(body, {","})
           off  == IF Len(ps) = 2 THEN Number(ps[2]) ELSE Word2Num(Zero)
           p    == Plain(t, ps[1])
       IN IF Len(ps) > 2 \/ cs[Len(cs)] # "]" \/ ~off.ok \/ p.st # "ok" THEN Arg("err", BadNum, << >>)
          ELSE IF p.n.neg \/ p.n.big \/ Plus(p.n.w, off) = "none" THEN Arg("any", BadNum, p.out)
          ELSE LET a  == IF off.neg THEN Sub(p.n.w, off.w) ELSE Add(p.n.w, off.w)
                   bs == MockReadBlock(t.rgs, t.m, a, 4)
               IN IF Len(bs) < 4 THEN Arg("any", BadNum, p.out)
                  ELSE Arg("ok", Word2Num(BytesWord(bs)),
                           Append(p.out, Is("[" \o Str(ps[1]) \o "," \o SignedDec(off) \o "] = 0x" \o Hex8(BytesWord(bs)))))
RECURSIVE Values(_, _)
Values(t, toks) ==          \* in order, up to the first one that is not fine
  IF toks = << >> THEN [st |-> "ok", ns |-> << >>, out |-> << >>]
  ELSE LET v == Value(t, Head(toks)) IN
       IF v.st # "ok" THEN [st |-> v.st, ns |-> << >>, out |-> v.out]
       ELSE LET q == Values(t, Tail(toks)) IN [st |-> q.st, ns |-> <<v.n>> \o q.ns, out |-> v.out \o q.out]
IsAddr(n) == ~n.neg /\ ~n.big
SmallN(n) == IF n.neg \/ n.big \/ n.w[1] > 0 THEN -1 ELSE n.w[2]

\* ----------------------------------------------------------------- commands
Res(s, out) == [s |-> s, out |-> out]
Err(s) == Res(s, << <<"any">>, <<"err">> >>)
NoClaim(s) == Res(s, << <<"any">> >>)
Nothing(s) == Res(s, << <<"alt", << >>, << <<"oops">> >> >> >>)              \* nothing, or a complaint
Lost(s) == Res([s EXCEPT !.free = TRUE], << <<"any">> >>)
ShowReg(t, nm) == LET v == t.r[Names[nm]] IN Is(nm \o " = 0x" \o Hex8(v) \o " (" \o DecW(v) \o ")")
Table == << <<"r0", "r6", "r12", "xpsr">>, <<"r1", "r7", "sp", "control">>, <<"r2", "r8", "lr", "primask">>,
            <<"r3", "r9", "pc", "faultmask">>, <<"r4", "r10", "msp", "basepri">>, <<"r5", "r11", "psp">> >>
Row(t, ns) == Is(Join([i \in 1..Len(ns) |-> ns[i] \o ": 0x" \o Hex8(t.r[Names[ns[i]]])], " "))
ShowRegs(t) == [i \in 1..6 |-> Row(t, Table[i])]
\* a dump of bytes in units of n bytes, 16 bytes in a line
Unit(bs, i, n) == CASE n = 1 -> HexN(bs[i], 2) [] n = 2 -> Hex4(Half(bs, i)) [] n = 4 -> Hex4(Half(bs, i + 2)) \o Hex4(Half(bs, i))
RECURSIVE DumpB(_, _, _)
DumpB(a, bs, n) ==
  IF bs = << >> THEN << >>
  ELSE LET k == Min2(16, Len(bs)) IN
       <<Is(Hex8(a) \o ": " \o Join([i \in 1..(k \div n) |-> Unit(bs, (i - 1) * n + 1, n)], " "))>>
         \o DumpB(AddN(a, 16), SubSeq(bs, 17, Len(bs)), n)
ReadCmd(s, args, n) ==
  LET v == Values(s.t, SubSeq(args, 1, Min2(Len(args), 2))) IN
  IF args = << >> \/ v.st = "err" THEN Err(s)
  ELSE IF v.st = "any" \/ ~IsAddr(v.ns[1]) THEN NoClaim(s)
  ELSE LET a == v.ns[1].w
           c == IF Len(v.ns) = 1 THEN n ELSE SmallN(v.ns[2])
           bs == IF c < 0 THEN << >> ELSE MockReadBlock(s.t.rgs, s.t.m, a, c)
       IN IF c < 0 \/ (c > 0 /\ bs = << >>) \/ Find(s.t.rgs, a) = 0 \/ Len(bs) % n # 0 THEN NoClaim(s)
          ELSE Res(s, v.out \o DumpB(a, bs, n))
\* halfwords and words are written modulo their size
InRange(n, k) == k > 1 \/ (IsAddr(n) /\ n.w[1] = 0 /\ n.w[2] < 256)
RECURSIVE AllBytes(_, _)
AllBytes(ns, k) == IF ns = << >> THEN << >> ELSE WordBytes(WordOf(Head(ns)), k) \o AllBytes(Tail(ns), k)
WriteCmd(s, args, k) ==
  LET v == Values(s.t, args) IN
  IF Len(args) < 2 \/ v.st = "err" THEN Err(s)
  ELSE IF v.st = "any" THEN NoClaim(s)
  ELSE IF \E i \in 2..Len(v.ns) : ~InRange(v.ns[i], k) THEN Lost(s)          \* numbers that do not fit
  ELSE Res(IF IsAddr(v.ns[1]) THEN [s EXCEPT !.t.m = MockWriteMem(s.t.rgs, @, v.ns[1].w, AllBytes(Tail(v.ns), k))] ELSE s, v.out)
WregCmd(s, args) ==
  IF Len(args) < 2 THEN Err(s)
  ELSE IF Str(LowTok(args[1])) \notin DOMAIN Names THEN Err(s)
  ELSE LET v == Value(s.t, args[2]) IN
       IF v.st = "err" THEN Err(s) ELSE IF v.st = "any" THEN NoClaim(s)
       ELSE Res([s EXCEPT !.t.r = MockWrite(@, Names[Str(LowTok(args[1]))], WordOf(v.n))], v.out)
RegCmd(s, args) ==
  IF args = << >> THEN Res(s, ShowRegs(s.t))
  ELSE IF Str(LowTok(args[1])) \in DOMAIN Names THEN Res(s, <<ShowReg(s.t, Str(LowTok(args[1])))>>) ELSE Err(s)
\* reset: PC and SP from the first two words if they point into memory
DoReset(s) ==
  LET w0 == BytesWord(MockRead(s.t.rgs, s.t.m, Zero, 4))
      w1 == BytesWord(MockRead(s.t.rgs, s.t.m, <<0, 4>>, 4))
      r1 == IF Find(s.t.rgs, w1) # 0 THEN MockWrite(s.t.r, PC, w1) ELSE s.t.r
      top == Sub(w0, <<0, 4>>)
      r2 == IF w0 # Zero /\ Find(s.t.rgs, top) # 0 THEN MockWrite(r1, SP, w0) ELSE r1
  IN Res([s EXCEPT !.t.r = r2], <<Is("CPU model reset."), Is("PC = 0x" \o Hex8(w1)), Is("SP = 0x" \o Hex8(w0))>>)
CodeLine(a, mark, e, f, h1, h2) == Is("0x" \o Hex8(a) \o ":" \o mark \o " " \o Text(e, f, h1, h2, a))
StepCmd(s) ==
  LET a  == ClearBit0(s.t.r[PC])
      bs == FetchBytes(s.t)
      d  == Peek(NewStream(a, bs)) IN
  IF bs = << >> \/ d.st \in {"end", "unpred"} THEN NoClaim(s)
  ELSE IF d.st = "undef" THEN Res(s, << <<"undef">> >>)
  ELSE IF d.e.k = "msr" \/ ~Claimed(d.e, d.f) THEN Lost(s)
  ELSE LET x == Exec(s.t, d.e, d.f) IN
       Res([s EXCEPT !.t.r = x.r, !.t.m = x.m], <<CodeLine(a, " ", d.e, d.f, HalfAt(bs, 0), HalfAt(bs, 2))>>)
\* the lines of a disassembly and why it stopped
RECURSIVE CodeLines(_, _)
CodeLines(st, pc) ==
  LET d == Peek(st) IN
  IF d.st # "ok" THEN [out |-> << >>, st |-> d.st]
  ELSE LET a == AddN(st.addr, st.off)
           q == CodeLines(After(st, d), pc)
       IN [out |-> <<CodeLine(a, IF a = pc THEN "*" ELSE " ", d.e, d.f, HalfAt(st.bs, st.off), HalfAt(st.bs, st.off + 2))>> \o q.out, st |-> q.st]
CenterOpts == {"-c", "--center"}
DisasmCmd(s, args) ==
  LET other == SelectSeq(args, LAMBDA a : Str(a) \notin CenterOpts)
      center == Len(other) < Len(args)
      v == Values(s.t, IF other = << >> THEN << <<"p", "c">> >> ELSE SubSeq(other, 1, Min2(Len(other), 2))) IN
  IF v.st = "err" THEN Err(s)
  ELSE IF v.st = "any" \/ ~IsAddr(v.ns[1]) THEN NoClaim(s)
  ELSE LET c  == IF Len(v.ns) = 1 THEN 6 ELSE SmallN(v.ns[2])
           a0 == v.ns[1].w
           lo == center /\ Ult(a0, FromNat(c \div 2))
           a  == ClearBit0(IF center THEN Sub(a0, FromNat(c \div 2)) ELSE a0)
           q  == CodeLines(NewStream(a, MockReadBlock(s.t.rgs, s.t.m, a, c)), ClearBit0(s.t.r[PC]))
       IN IF c < 0 THEN NoClaim(s)
          ELSE IF lo \/ Find(s.t.rgs, a) = 0 THEN NoClaim(s)
          ELSE CASE q.st = "unpred" -> NoClaim(s)
                 [] q.st = "end" -> Res(s, v.out \o q.out)
                 [] q.st = "undef" -> Res(s, Append(v.out, <<"alt", << <<"undef">> >> \o q.out, Append(q.out, <<"undef">>)>>))
\* a Python expression on the CPU model: those that are described
Cs(str) == [i \in 1..Len(str) |-> SubSeq(str, i, i)]
RECURSIVE TrimL(_)
TrimL(cs) == IF cs # << >> /\ Head(cs) \in Blanks THEN TrimL(Tail(cs)) ELSE cs
RECURSIVE Trim(_)
Trim(cs) == IF cs # << >> /\ cs[Len(cs)] \in Blanks THEN Trim(SubSeq(cs, 1, Len(cs) - 1)) ELSE TrimL(cs)
Framed(cs, pre, post) == /\ Len(cs) > Len(pre) + Len(post) /\ SubSeq(cs, 1, Len(pre)) = pre
                         /\ SubSeq(cs, Len(cs) - Len(post) + 1, Len(cs)) = post
Middle(cs, pre, post) == SubSeq(cs, Len(pre) + 1, Len(cs) - Len(post))
PyReadReg == Cs("cpu.read_register('")  PyRegEnd == Cs("').unsigned")  PyAttr == Cs("cpu.")  PyAttrEnd == Cs(".unsigned")
PyItem == Cs("cpu.r[")  PyItemEnd == Cs("].unsigned")  PyReadEnd == Cs(").unsigned")
PyWriteReg == Cs("cpu.write_register('")  PyClose == <<")">>
Attributes == {"pc", "lr", "sp", "msp", "psp", "control", "xpsr"}
Wrong == {"", "1 +", "cpu.", "foo", "cpu.nothing", "cpu.r[16]", "cpu.r[99]", "cpu.read_register(", "cpu.pc = 1", "1/0", "int('x')"}
Fits(n) == n.ok /\ ~n.neg /\ ~n.big
ShowInt(s, w) == Res(s, <<Is("0x" \o Hex8(w) \o " (" \o DecW(w) \o ")")>>)
PyRead(n) == Cs("cpu.read" \o ToString(8 * n) \o "(")
PyWrite(n) == Cs("cpu.write" \o ToString(8 * n) \o "(")
PythonCmd(s, cs) ==
  LET Mid(pre, post) == Middle(cs, pre, post)
      attr == Str(Mid(PyAttr, PyAttrEnd))
      Two(pre) == Pieces(Mid(pre, PyClose), {","})
      n == Number(cs)
  IN
  IF Fits(n) THEN ShowInt(s, n.w)
  ELSE IF Str(cs) \in Wrong THEN Res(s, << <<"fail">> >>)
  ELSE IF Framed(cs, PyReadReg, PyRegEnd) /\ Str(LowTok(Mid(PyReadReg, PyRegEnd))) \in DOMAIN Names
       THEN ShowInt(s, s.t.r[Names[Str(LowTok(Mid(PyReadReg, PyRegEnd)))]])
  ELSE IF Framed(cs, PyAttr, PyAttrEnd) /\ attr \in Attributes THEN ShowInt(s, s.t.r[Names[attr]])
  ELSE IF Framed(cs, PyItem, PyItemEnd) /\ Number(Mid(PyItem, PyItemEnd)).ok /\ SmallN(Number(Mid(PyItem, PyItemEnd))) \in 0..15
       THEN ShowInt(s, s.t.r[SmallN(Number(Mid(PyItem, PyItemEnd)))])
  ELSE IF \E k \in {1, 2, 4} : Framed(cs, PyRead(k), PyReadEnd) /\ Fits(Number(Mid(PyRead(k), PyReadEnd)))
       THEN LET k == CHOOSE j \in {1, 2, 4} : Framed(cs, PyRead(j), PyReadEnd) IN
            ShowInt(s, BytesWord(MockRead(s.t.rgs, s.t.m, Number(Mid(PyRead(k), PyReadEnd)).w, k)))
  ELSE IF \E k \in {1, 2, 4} : /\ Framed(cs, PyWrite(k), PyClose) /\ Len(Two(PyWrite(k))) = 2
                               /\ \A i \in 1..2 : Fits(Number(Trim(Two(PyWrite(k))[i])))
       THEN LET k == CHOOSE j \in {1, 2, 4} : Framed(cs, PyWrite(j), PyClose)
                ArgW(i) == Number(Trim(Two(PyWrite(k))[i])).w IN
            Res([s EXCEPT !.t.m = MockWriteMem(s.t.rgs, @, ArgW(1), WordBytes(ArgW(2), k))], << >>)
  ELSE IF Framed(cs, PyWriteReg, PyClose) /\ Len(Two(PyWriteReg)) = 2
       THEN LET nm == Two(PyWriteReg)[1]  v == Number(Trim(Two(PyWriteReg)[2])) IN
            IF nm # << >> /\ nm[Len(nm)] = "'" /\ Str(LowTok(SubSeq(nm, 1, Len(nm) - 1))) \in DOMAIN Names /\ v.ok
            THEN Res([s EXCEPT !.t.r = MockWrite(@, Names[Str(LowTok(SubSeq(nm, 1, Len(nm) - 1)))], WordOf(v))], << >>)
            ELSE Lost(s)
  ELSE Lost(s)
Levels == {"debug", "info", "warning", "error", "critical"}
Command(s, cs) ==
  LET ts == Tokens(cs) IN
  IF ts = << >> THEN Nothing(s)
  ELSE IF ts[1][1] = "$" THEN PythonCmd(s, Trim(Tail(Trim(cs))))
  ELSE LET c == Str(LowTok(ts[1]))  args == Tail(ts) IN
  CASE c \in {"?", "help"} -> NoClaim(s)
    [] c \in DOMAIN Names -> Res(s, <<ShowReg(s.t, c)>>)
    [] c = "reg" -> RegCmd(s, args)
    [] c = "wreg" -> WregCmd(s, args)
    [] c \in {"read", "read8", "r", "rb"} -> ReadCmd(s, args, 1)
    [] c \in {"read16", "r16", "rh"} -> ReadCmd(s, args, 2)
    [] c \in {"read32", "r32", "rw"} -> ReadCmd(s, args, 4)
    [] c \in {"write", "write8", "w", "wb"} -> WriteCmd(s, args, 1)
    [] c \in {"write16", "w16", "wh"} -> WriteCmd(s, args, 2)
    [] c \in {"write32", "w32", "ww"} -> WriteCmd(s, args, 4)
    [] c = "reset" -> DoReset(s)
    [] c \in {"step", "s"} -> StepCmd(s)
    [] c \in {"disasm", "d"} -> DisasmCmd(s, args)
    [] c \in {"info", "i", "map"} -> Res(s, << >>)
    [] c = "log" -> IF args # << >> /\ Str(LowTok(args[1])) \in Levels THEN Res(s, << >>) ELSE Err(s)
    [] c \in {"exit", "quit"} -> Res([s EXCEPT !.done = TRUE], << >>)
    [] OTHER -> Err(s)
RECURSIVE Commands(_, _, _)
Commands(s, ps, out) == IF ps = << >> \/ s.done THEN Res(s, out)
                        ELSE LET x == Command(s, Head(ps)) IN Commands(x.s, Tail(ps), out \o x.out)
\* one line typed by the user
Typed(s, cs) ==
  IF s.done THEN Res(s, <<Is("<no prompt>")>>)           \* nobody asks any more
  ELSE IF Tokens(cs) # << >> THEN Commands([s EXCEPT !.last = cs], Pieces(cs, {";"}), << >>)
  ELSE IF s.last = << >> THEN Res(s, << >>)
  ELSE Commands(s, Pieces(s.last, {";"}), << >>)

\* ------------------------------------------------------------------ starting
RamAt == <<8191, 32768>>                                 \* 0x1fff8000
\* a binary of n bytes, given by its bytes that are not zero as <<offset, byte>>
RECURSIVE Image(_)
Image(ps) == IF ps = << >> THEN EmptyMap ELSE (<<1, Head(ps)[1]>> :> Head(ps)[2]) @@ Image(Tail(ps))
MaxN(a, b) == IF a > b THEN a ELSE b
Boot(n, ps) ==
  LET m == Image(ps)
      flash == [start |-> Zero, len |-> MaxN(65536, n)]
      sp == BytesWord(MockRead(<<flash>>, m, Zero, 4))
      d  == Sub(sp, RamAt)
      ram == [start |-> RamAt, len |-> IF Ult(sp, RamAt) \/ d[1] = 0 THEN 65536 ELSE d[1] * 65536 + d[2]]
      t == [Blank EXCEPT !.mk = "mock", !.r = [i \in 0..55 |-> IF i = XPSR THEN <<256, 0>> ELSE Zero], !.rgs = <<flash, ram>>, !.m = m]
  IN DoReset([t |-> t, last |-> << >>, free |-> FALSE, done |-> FALSE])

\* does a printed text (its non-empty lines) agree with what is expected?
Starts(l, p) == Len(l) >= Len(p) /\ SubSeq(l, 1, Len(p)) = p
RECURSIVE Agrees(_, _)
Agrees(out, ls) ==
  IF out = << >> THEN ls = << >>
  ELSE LET h == Head(out) r == Tail(out) IN
       CASE h[1] = "any" -> \E k \in 0..Len(ls) : Agrees(r, SubSeq(ls, k + 1, Len(ls)))
         [] h[1] = "alt" -> Agrees(h[2] \o r, ls) \/ Agrees(h[3] \o r, ls)
         [] h[1] = "is" -> IF h[2] = "" THEN Agrees(r, ls) ELSE ls # << >> /\ Head(ls) = h[2] /\ Agrees(r, Tail(ls))
         [] h[1] = "err" -> ls # << >> /\ Starts(Head(ls), "Error:") /\ Agrees(r, Tail(ls))
         [] h[1] = "oops" -> ls # << >> /\ (Starts(Head(ls), "Error:") \/ Starts(Head(ls), "Unexpected exception:")) /\ Agrees(r, Tail(ls))
         [] h[1] = "fail" -> ls # << >> /\ (\E p \in {"Exception", "Error", "Unexpected"} : Starts(Head(ls), p)) /\ Agrees(r, Tail(ls))
         [] h[1] = "undef" -> ls # << >> /\ Starts(Head(ls), "Undefined") /\ Agrees(r, Tail(ls))
=============================================================================
