------------------------------ MODULE Trace_Cpu ------------------------------
(* Checks recorded histories of the real decoder, formatter and instructions  *)
(* against the specification: a chunk is a sequence of events (CpuEvents) on  *)
(* one machine, every event is one transition, and a transition that the      *)
(* specification does not allow prints BAD with the clauses it breaks.        *)
EXTENDS CpuEvents, IOUtils, Json

Chunks == ndJsonDeserialize(IOEnv.TRACE)
\* (names no operator uses as a parameter: TLC does not cache a constant
\* definition that mentions a name which is also a variable)
VARIABLES vChunk, vPos, vSt
vars == <<vChunk, vPos, vSt>>

Init == vChunk \in 1..Len(Chunks) /\ vPos = 0 /\ vSt = Blank
Next == /\ vPos < Len(Chunks[vChunk])
        /\ vPos' = vPos + 1
        /\ UNCHANGED vChunk
        /\ LET x == Step(vSt, Chunks[vChunk][vPos + 1]) IN
           /\ vSt' = x.s
           /\ (x.bad # {} => PrintT(<<"BAD", vChunk, vPos + 1, x.bad>>))
Spec == Init /\ [][Next]_vars
=============================================================================
