----------------------------- MODULE Trace_Reuse -----------------------------
(* Histories that keep decoded instructions and use them again and again on   *)
(* several machines.  In the specification an instruction is a value: the     *)
(* word and address it was decoded with.                                      *)
(*  <<"R", ...>>                             a further machine, now current   *)
(*  <<"M", k>>                               machine k is current             *)
(*  <<"N", id, h1, h2, nb, addr, outcome>>   decode into slot id              *)
(*  <<"A", id, mnemonic, size, bytes, addr>> attributes of the object in id   *)
(*  <<"S", id, addr>>                        its address is set               *)
(*  <<"F", id, text, rdiff>>                 formatted on the current machine *)
(*  <<"X", id, 0, 0, pokes, ...>>            executed on the current machine  *)
EXTENDS CpuEvents, IOUtils, Json

Chunks == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vChunk, vPos, vSt
vars == <<vChunk, vPos, vSt>>

None == [h1 |-> 0, h2 |-> 0, nb |-> 0, addr |-> Zero, st |-> "none"]
RStep(q, ev) ==
  LET keep(bad) == [s |-> q, bad |-> bad] IN
  CASE ev[1] = "R" -> [s |-> [q EXCEPT !.ms = Append(@, Setup(ev)), !.cur = Len(q.ms) + 1], bad |-> {}]
    [] ev[1] = "M" -> [s |-> [q EXCEPT !.cur = ev[2]], bad |-> {}]
    [] ev[1] = "N" ->
         LET d == DecodeN(ev[3], ev[4], ev[5])
             o == [h1 |-> ev[3], h2 |-> ev[4], nb |-> ev[5], addr |-> Pair(ev[6]), st |-> ev[7]]
         IN [s |-> [q EXCEPT !.pool = (ev[2] :> o) @@ @], bad |-> IF d.st # ev[7] THEN {"outcome"} ELSE {}]
    [] OTHER ->
         LET o == q.pool[ev[2]]
             d == DecodeN(o.h1, o.h2, o.nb)
         IN IF o.st # "ok" \/ d.st # "ok" THEN keep({})
            ELSE
            CASE ev[1] = "A" ->
                   LET b == <<o.h1 % 256, o.h1 \div 256, o.h2 % 256, o.h2 \div 256>> IN
                   keep((IF ev[3] # Mnem(d.e, d.f) THEN {"mnemonic"} ELSE {})
                        \cup (IF ev[4] # Size(d.e) THEN {"size"} ELSE {})
                        \cup (IF ev[5] # SubSeq(b, 1, Size(d.e)) THEN {"bytes"} ELSE {})
                        \cup (IF Pair(ev[6]) # o.addr THEN {"address"} ELSE {}))
              [] ev[1] = "S" -> [s |-> [q EXCEPT !.pool = (ev[2] :> [o EXCEPT !.addr = Pair(ev[3])]) @@ @], bad |-> {}]
              [] ev[1] = "F" ->
                   keep((IF ev[3] # Text(d.e, d.f, o.h1, o.h2, o.addr) THEN {"text"} ELSE {})
                        \cup (IF ev[4] # << >> THEN {"frame"} ELSE {}))
              [] ev[1] = "X" ->
                   LET x == Step(q.ms[q.cur], [ev EXCEPT ![2] = o.h1, ![3] = o.h2, ![4] = o.nb]) IN
                   [s |-> [q EXCEPT !.ms[q.cur] = x.s], bad |-> x.bad]

Init == vChunk \in 1..Len(Chunks) /\ vPos = 0 /\ vSt = [ms |-> << >>, cur |-> 0, pool |-> EmptyMap]
Next == /\ vPos < Len(Chunks[vChunk])
        /\ vPos' = vPos + 1
        /\ UNCHANGED vChunk
        /\ LET x == RStep(vSt, Chunks[vChunk][vPos + 1]) IN
           /\ vSt' = x.s
           /\ (x.bad # {} => PrintT(<<"BAD", vChunk, vPos + 1, x.bad>>))
Spec == Init /\ [][Next]_vars
=============================================================================
