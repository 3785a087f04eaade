------------------------------ MODULE Trace_Prog ------------------------------
(* Recorded runs of programs on the library's mock CPU.                       *)
(*  <<"R", ...>>                             a machine (CpuEvents)            *)
(*  <<"I", addr, bytes>>                     a block is written to its memory *)
(*  <<"G", <<reg, hi, lo>>...>>              registers are written            *)
(*  <<"P", st, mnemonic, exc, rdiff, mdiff>> one step: fetch, decode, execute;*)
(*         st: ok, undef, unpred, nomem or the name of another exception      *)
(*  <<"E", words, exc, rdiff, mdiff>>       decoded instructions are executed*)
(*         one after the other, wherever the PC is                            *)
EXTENDS Prog, IOUtils, Json

Chunks == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vChunk, vPos, vSt
vars == <<vChunk, vPos, vSt>>

Block(t, m, a, bs) ==
  LET i == Find(t.rgs, a) IN
  IF i = 0 THEN m
  ELSE LET o == Offset(t.rgs[i], a)
           n == Min2(Len(bs), t.rgs[i].len - o)
       IN [k \in { <<i, o + j>> : j \in 0..(n - 1) } |-> bs[k[2] - o + 1]] @@ m
RECURSIVE Sets(_, _)
Sets(r, ps) == IF ps = << >> THEN r ELSE Sets(MockWrite(r, Head(ps)[1], <<Head(ps)[2], Head(ps)[3]>>), Tail(ps))
\* is what executing a word from any state gives fixed in every respect?
Fixed(w) == LET d == DecodeN(w[1], w[2], 4) IN d.st = "ok" /\ Claimed(d.e, d.f) /\ d.e.k # "msr"
RECURSIVE All(_, _)
All(t, ws) == IF ws = << >> THEN t
              ELSE LET w == Head(ws)  d == DecodeN(w[1], w[2], 4)  x == Exec(t, d.e, d.f) IN
                   All([t EXCEPT !.r = x.r, !.m = x.m], Tail(ws))
PStep(s, ev) ==
  CASE ev[1] = "I" -> [s |-> [s EXCEPT !.m = Block(s, s.m, Pair(ev[2]), ev[3])], bad |-> {}]
    [] ev[1] = "G" -> [s |-> [s EXCEPT !.r = Sets(s.r, ev[2])], bad |-> {}]
    [] ev[1] = "P" ->
         LET d  == AtPc(s)
             ar == PutRegs(s.r, ev[5])
             am == PutMem(s, s.m, ev[6])
             q  == <<"X", 0, 0, 4, << >>, << >>, ev[4], ev[5], ev[6], << >>, << >>>>
         IN [s |-> [s EXCEPT !.r = ar, !.m = am],
             bad |-> IF ev[2] # d.st THEN {"stop"}
                     ELSE IF d.st # "ok" THEN (IF ev[5] # << >> \/ ev[6] # << >> THEN {"frame"} ELSE {})
                     ELSE IF ev[3] # Mnem(d.e, d.f) THEN {"mnemonic"}
                     ELSE IF ~Claimed(d.e, d.f) THEN {}
                     ELSE IF ev[4] # "" THEN {"exception"}
                     ELSE CheckExec(s, d.e, d.f, q, ar, am)]
    [] ev[1] = "E" ->
         LET ar == PutRegs(s.r, ev[4])
             am == PutMem(s, s.m, ev[5])
             claim == \A i \in 1..Len(ev[2]) : Fixed(ev[2][i])
         IN [s |-> [s EXCEPT !.r = ar, !.m = am],
             bad |-> IF ~claim THEN {}
                     ELSE LET x == All(s, ev[2]) IN
                          (IF ev[3] # "" THEN {"exception"} ELSE {})
                          \cup (IF ar # x.r THEN {"value"} ELSE {})
                          \cup (IF \E k \in DOMAIN am \cup DOMAIN x.m : ByteAt(s, am, k) # ByteAt(s, x.m, k) THEN {"memory"} ELSE {})]
    [] OTHER -> Step(s, ev)
Init == vChunk \in 1..Len(Chunks) /\ vPos = 0 /\ vSt = Blank
Next == /\ vPos < Len(Chunks[vChunk])
        /\ vPos' = vPos + 1
        /\ UNCHANGED vChunk
        /\ LET x == PStep(vSt, Chunks[vChunk][vPos + 1]) IN
           /\ vSt' = x.s
           /\ (x.bad # {} => PrintT(<<"BAD", vChunk, vPos + 1, x.bad>>))
Spec == Init /\ [][Next]_vars
=============================================================================
