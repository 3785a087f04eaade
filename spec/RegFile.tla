------------------------------- MODULE RegFile -------------------------------
(* Register numbers: 0..12, 13 SP, 14 LR, 15 PC, 16 xPSR, 17 MSP, 18 PSP,     *)
(* 19 PRIMASK, 20 BASEPRI, 21 FAULTMASK, 22 CONTROL.                          *)
(* "flat": a delegate of independent 32-bit cells.  "mock": the mock CPU,     *)
(* with banked SP and narrow special registers.                               *)
EXTENDS Word
SP == 13  LR == 14  PC == 15  XPSR == 16  MSP == 17  PSP == 18
PRIMASK == 19  BASEPRI == 20  FAULTMASK == 21  CONTROL == 22
Regs == 0..22

Spsel(r) == Bit(r[CONTROL], 1)
Bank(r)  == IF Spsel(r) = 1 THEN PSP ELSE MSP
Narrow(i, v) == CASE i \in {PRIMASK, FAULTMASK} -> <<0, v[2] % 2>>
                  [] i = BASEPRI -> <<0, v[2] % 256>>
                  [] i \in {SP, MSP, PSP} -> AlignTo(v, 2)
                  [] OTHER -> v
MockWrite(r, i, v0) ==
  LET v == Narrow(i, v0)
      q == [r EXCEPT ![i] = v]
  IN CASE i = SP -> [q EXCEPT ![Bank(q)] = v]
       [] i \in {MSP, PSP, CONTROL} -> [q EXCEPT ![SP] = q[Bank(q)]]
       [] OTHER -> q
WriteReg(mk, r, i, v) == IF mk = "mock" THEN MockWrite(r, i, v) ELSE [r EXCEPT ![i] = v]

MockInit == [i \in Regs |-> IF i = XPSR THEN <<P2[8], 0>> ELSE Zero]   \* LB = 16: T bit
=============================================================================
