------------------------------ MODULE MC_Console ------------------------------
(* All sessions of up to MaxLines lines from an alphabet, on a small program:  *)
(* lines compose, an empty line repeats, what is rejected or only shows leaves *)
(* the machine alone, what was written is read back, a step is one step of the *)
(* program semantics and the register file stays within its widths.            *)
EXTENDS Console
CONSTANT MaxLines, PairDepth
VARIABLES vS, vK, vLast, vOut, vBefore
vars == <<vS, vK, vLast, vOut, vBefore>>
Chars(str) == [i \in 1..Len(str) |-> SubSeq(str, i, i)]
\* stack at 0x1fff9000, code at 8: movs r0,#5; subs r0,#1; bne .-2; push {r0,lr}; udf; svc #1 ...
Program == <<0, 144, 255, 31,  9, 0, 0, 0,  5, 32,  1, 56,  253, 209,  1, 181,  1, 222,  1, 223>>
RECURSIVE ToImage(_)
ToImage(i) == IF i > Len(Program) THEN << >> ELSE (IF Program[i] = 0 THEN << >> ELSE <<<<i - 1, Program[i]>>>>) \o ToImage(i + 1)
Start == Boot(Len(Program), ToImage(1)).s
Showing == {"r1", "R1", "reg sp", "reg", "rw 0x1fff8000 8", "rb [0,4]", "disasm", "d pc 4", "?", "info", "$16", "$ cpu.r[1].unsigned",
            "$cpu.read_register('SP').unsigned", "$1/0", "$cpu.read16(0x1fff8001).unsigned"}
Rejected == {"foo", "wreg", "wreg r1", "wreg r1 zz", "wreg r77 1", "write8 4", "rb zz", "reg q", "log loud", "wreg r1 [1,2,3]"}
Acting == {"wreg r1 0x14", "wreg control 0xff", "wreg SP 0x1fff8013", "wreg r2 -1", "wreg primask [sp,-4]",
           "ww 0x1fff8000 r1 0x80000001", "wh 0x1fff8001 0xabcd", "wb 0x20007fff 1 2 3", "write32 9 1", "step", "reset",
           "$cpu.write_register('r1', 20)", "$cpu.write16(0x1fff8001, 0xabcd)", "wreg pc 0b1010;S", "wb 0xe 0xd;s"}
Other == {"", " \t", "exit", ";"}
Simple == Showing \cup Rejected \cup (Acting \ {"wreg pc 0b1010;S", "wb 0xe 0xd;s"})
Alphabet == TLCEval(Showing \cup Rejected \cup Acting \cup Other)
CharsOf == TLCEval([l \in Alphabet |-> Chars(l)])
Init == vS = Start /\ vK = 0 /\ vLast = "" /\ vOut = << >> /\ vBefore = Start
Next == /\ vK < MaxLines /\ vK' = vK + 1
        /\ \E l \in Alphabet : LET x == Typed(vS, CharsOf[l]) IN
             vS' = x.s /\ vOut' = x.out /\ vLast' = l /\ vBefore' = vS
Spec == Init /\ [][Next]_vars
HasErr(out) == \E i \in 1..Len(out) : out[i][1] = "err"
M(s) == [s EXCEPT !.last = << >>]
\* what was recorded of the last line
Line == /\ vLast \in Showing /\ ~vBefore.done => vS.t = vBefore.t /\ ~HasErr(vOut)
        /\ vLast \in Rejected /\ ~vBefore.done => vS.t = vBefore.t /\ HasErr(vOut)
        /\ vLast \in {"wreg r1 0x14", "$cpu.write_register('r1', 20)"} /\ ~vS.done => vS.t.r[1] = <<0, 20>>
        /\ vLast = "wreg r2 -1" /\ ~vS.done => vS.t.r[2] = <<65535, 65535>>
        /\ vLast = "wreg SP 0x1fff8013" /\ ~vS.done => vS.t.r[SP] = <<8191, 32784>>
        /\ vLast = "ww 0x1fff8000 r1 0x80000001" /\ ~vS.done =>
             MockReadBlock(vS.t.rgs, vS.t.m, RamAt, 8) = WordBytes(vBefore.t.r[1], 4) \o <<1, 0, 0, 128>>
        /\ vLast \in {"wh 0x1fff8001 0xabcd", "$cpu.write16(0x1fff8001, 0xabcd)"} /\ ~vS.done => MockReadBlock(vS.t.rgs, vS.t.m, <<8191, 32769>>, 2) = <<205, 171>>
        /\ vLast = "wb 0x20007fff 1 2 3" /\ ~vS.done => MockReadBlock(vS.t.rgs, vS.t.m, <<8192, 32767>>, 1) # <<0>> \/ vS.t.m = vBefore.t.m
        /\ vLast = "step" /\ ~vBefore.done => vS.t = Run1(vBefore.t)
        /\ vLast = "exit" => vS.done
        /\ vBefore.done => vS = vBefore /\ vOut = <<Is("<no prompt>")>>
        /\ vLast \in {"", " \t"} => (vBefore.last # << >> /\ ~vBefore.done => Typed(vBefore, vBefore.last) = [s |-> vS, out |-> vOut])
Widths == /\ vS.t.r[PRIMASK] \in {Zero, One}
          /\ vS.t.r[SP][2] % 4 = 0 /\ vS.t.r[SP] = vS.t.r[Bank(vS.t.r)]
          /\ \A k \in DOMAIN vS.t.m : k[2] >= 0 /\ k[2] < vS.t.rgs[k[1]].len
          /\ vS.t.rgs = Start.t.rgs /\ ~vS.free
\* a;b is a followed by b
Pairs == vK <= PairDepth /\ ~vS.done =>
         \A a, b \in Simple : LET x == Typed(vS, CharsOf[a])  y == Typed(x.s, CharsOf[b])
                                  z == Typed(vS, CharsOf[a] \o <<";">> \o CharsOf[b]) IN
                              M(z.s) = M(y.s) /\ z.out = x.out \o y.out
Inv == Line /\ Widths /\ Pairs
=============================================================================
