------------------------------ MODULE Trace_Bits ------------------------------
(* Recorded histories of operations on bitstring objects.                     *)
(*  <<"init", <<<<id, bits>>, ...>>>>                                         *)
(*  <<kind, sub, args, exc, res, changes>>: changes are all objects whose     *)
(*        contents differ from what they were before, as <<id, bits>>; a new  *)
(*        result object is <<"o", id, bits>> with an id not used before       *)
EXTENDS BitHeap, IOUtils, Json

Chunks == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vChunk, vPos, vSt
vars == <<vChunk, vPos, vSt>>
Bad(c, t) == IF c THEN {t} ELSE {}
RECURSIVE Over(_, _)
Over(h, ps) == IF ps = << >> THEN h ELSE Over((Head(ps)[1] :> Head(ps)[2]) @@ h, Tail(ps))
HStep(h, ev) ==
  IF ev[1] = "init" THEN [s |-> Over(h, ev[2]), bad |-> {}]
  ELSE
  LET x  == Apply(h, ev[1], ev[2], ev[3])
      r  == ev[5]
      ob == Over(h, ev[6])                              \* the heap as observed
      new == r # << >> /\ r[1] = "o"
      ch == { k \in DOMAIN h : ob[k] # x.h[k] }
      tg == IF ev[3][1][1] = "o" /\ ev[1] \in {"ibin", "iun", "put"} THEN {ev[3][1][2]} ELSE {}
  IN [s |-> IF new THEN (r[2] :> r[3]) @@ ob ELSE ob,
      bad |-> Bad((ch \ tg) # {}, "frame") \cup Bad(ch \cap tg # {}, "target")
              \cup (IF x.exc # {} THEN Bad(ev[4] \notin x.exc, "exception")
                    ELSE IF ev[4] # "" THEN {"exception"}
                    ELSE IF x.any THEN {}
                    ELSE IF x.res[1] = "o" THEN (IF ~new THEN {"alias"} ELSE Bad(r[3] # x.res[2], "result"))
                    ELSE Bad(r # x.res, "result"))]
Init == vChunk \in 1..Len(Chunks) /\ vPos = 0 /\ vSt = [i \in {} |-> << >>]
Next == /\ vPos < Len(Chunks[vChunk])
        /\ vPos' = vPos + 1
        /\ UNCHANGED vChunk
        /\ LET x == HStep(vSt, Chunks[vChunk][vPos + 1]) IN
           /\ vSt' = x.s
           /\ (x.bad # {} => PrintT(<<"BAD", vChunk, vPos + 1, x.bad>>))
Spec == Init /\ [][Next]_vars
=============================================================================
