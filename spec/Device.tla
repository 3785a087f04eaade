-------------------------------- MODULE Device --------------------------------
(* The mock CPU as a device: register file and memory regions under any       *)
(* history of accesses, one operator per operation of its interface.          *)
(*   d.r    registers 0..55 (RegFile; 23 FPSCR, 24..55 S0..S31)               *)
(*   d.rgs  regions in order of creation,  d.m  their bytes (Memory)          *)
EXTENDS RegFile, Memory
AllRegs == 0..55
NewDevice == [r |-> [i \in AllRegs |-> IF i = XPSR THEN <<256, 0>> ELSE Zero], rgs |-> << >>, m |-> EmptyMap]

DWriteReg(d, i, v) == [d EXCEPT !.r = MockWrite(@, i, v)]
DReadReg(d, i) == d.r[i]
DAddMemory(d, start, len) == [d EXCEPT !.rgs = Append(@, [start |-> start, len |-> len])]
DWrite(d, a, bs) == [d EXCEPT !.m = MockWriteMem(d.rgs, @, a, bs)]
DRead(d, a, n) == BytesWord(MockRead(d.rgs, d.m, a, n))
DMapped(d, a) == Find(d.rgs, a) # 0
DReadBlock(d, a, n) == MockReadBlock(d.rgs, d.m, a, n)

\* Invariants of the register file
Banked(d)  == d.r[SP] = d.r[Bank(d.r)]
Aligned(d) == \A i \in {SP, MSP, PSP} : d.r[i][2] % 4 = 0
Narrowed(d) == /\ \A i \in {PRIMASK, FAULTMASK} : d.r[i] \in {Zero, One}
               /\ d.r[BASEPRI][1] = 0 /\ d.r[BASEPRI][2] < 256
\* Invariants of the memory: only bytes of regions are kept
Contained(d) == \A k \in DOMAIN d.m : k[1] \in 1..Len(d.rgs) /\ k[2] >= 0 /\ k[2] < d.rgs[k[1]].len
                                      /\ d.m[k] \in 0..255
=============================================================================
