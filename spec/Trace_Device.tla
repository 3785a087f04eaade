----------------------------- MODULE Trace_Device -----------------------------
(* Recorded histories of the mock CPU delegate.                               *)
(*  <<"0", dump>>                  created; all registers                     *)
(*  <<"W", i, v, exc, diff>>       register write, registers that changed     *)
(*  <<"V", i, v>>                  register read                              *)
(*  <<"A", start, len>>            region added                               *)
(*  <<"S", addr, bytes, exc>>      byte, halfword, word or block written      *)
(*  <<"L", addr, n, exc, v>>       read of n bytes as a number                *)
(*  <<"B", addr, n, exc, bytes>>   block read (unmapped: "none")              *)
EXTENDS Device, IOUtils, Json

Chunks == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vChunk, vPos, vSt
vars == <<vChunk, vPos, vSt>>
Pair(x) == <<x[1], x[2]>>
RECURSIVE PutRegs(_, _)
PutRegs(r, ps) == IF ps = << >> THEN r
                  ELSE PutRegs([r EXCEPT ![Head(ps)[1]] = <<Head(ps)[2], Head(ps)[3]>>], Tail(ps))
Bad(c, t) == IF c THEN {t} ELSE {}
DStep(d, ev) ==
  CASE ev[1] = "0" ->
         LET n == NewDevice IN
         [s |-> [n EXCEPT !.r = [i \in AllRegs |-> Pair(ev[2][i + 1])]],
          bad |-> Bad(\E i \in AllRegs : Pair(ev[2][i + 1]) # n.r[i], "initial")]
    [] ev[1] = "W" ->
         LET x == DWriteReg(d, ev[2], Pair(ev[3]))
             ar == PutRegs(d.r, ev[5])
         IN [s |-> [d EXCEPT !.r = ar],
             bad |-> Bad(ev[4] # "", "exception")
                     \cup Bad(ar[ev[2]] # x.r[ev[2]], "value")
                     \cup Bad(\E i \in {SP, MSP, PSP} \ {ev[2]} : ar[i] # x.r[i], "bank")
                     \cup Bad(\E i \in AllRegs \ {SP, MSP, PSP, ev[2]} : ar[i] # x.r[i], "frame")]
    [] ev[1] = "V" -> [s |-> d, bad |-> Bad(Pair(ev[3]) # DReadReg(d, ev[2]), "read")]
    [] ev[1] = "A" -> [s |-> DAddMemory(d, Pair(ev[2]), ev[3]), bad |-> {}]
    [] ev[1] = "S" -> [s |-> DWrite(d, Pair(ev[2]), ev[3]), bad |-> Bad(ev[4] # "", "exception")]
    [] ev[1] = "L" -> [s |-> d, bad |-> IF ev[4] # "" THEN {"exception"}
                                        ELSE Bad(Pair(ev[5]) # DRead(d, Pair(ev[2]), ev[3]), "load")]
    [] ev[1] = "B" -> [s |-> d, bad |-> IF DMapped(d, Pair(ev[2]))
                                        THEN IF ev[4] # "" THEN {"exception"}
                                             ELSE Bad(ev[5] # DReadBlock(d, Pair(ev[2]), ev[3]), "block")
                                        ELSE Bad(ev[4] = "" /\ ev[5] # << >>, "block")]
Init == vChunk \in 1..Len(Chunks) /\ vPos = 0 /\ vSt = NewDevice
Next == /\ vPos < Len(Chunks[vChunk])
        /\ vPos' = vPos + 1
        /\ UNCHANGED vChunk
        /\ LET x == DStep(vSt, Chunks[vChunk][vPos + 1]) IN
           /\ vSt' = x.s
           /\ (x.bad # {} => PrintT(<<"BAD", vChunk, vPos + 1, x.bad>>))
Spec == Init /\ [][Next]_vars
=============================================================================
