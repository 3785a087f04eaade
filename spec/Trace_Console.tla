---------------------------- MODULE Trace_Console ----------------------------
(* Recorded console sessions.                                                 *)
(*  <<"S", n, <<<<offset, byte>>, ...>>, lines>>   started with a binary      *)
(*  <<"L", characters, lines>>                     a line is typed            *)
(*  <<"X", status>>                                the console ended          *)
EXTENDS Console, IOUtils, Json
Chunks == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vChunk, vPos, vSt
vars == <<vChunk, vPos, vSt>>
Kind(cs) == LET ps == NonEmpty(Pieces(cs, {";"})) ts == Tokens(ps[1]) IN Str(LowTok(ts[1]))
CStep(s, ev) ==
  IF ev[1] = "X" THEN [s |-> s, bad |-> IF ev[2] # 0 /\ ~s.free THEN {"status"} ELSE {}]
  ELSE
  LET x == IF ev[1] = "S" THEN Boot(ev[2], ev[3]) ELSE Typed(s, ev[2])
      ls == IF ev[1] = "S" THEN ev[4] ELSE ev[3]
  IN IF ev[1] = "L" /\ s.free THEN [s |-> s, bad |-> {}]
     ELSE IF Agrees(x.out, ls) THEN [s |-> x.s, bad |-> {}]
     ELSE IF x.s.free THEN [s |-> x.s, bad |-> {}]
     ELSE [s |-> [x.s EXCEPT !.free = TRUE], bad |-> {"output"}]
None == [t |-> Blank, last |-> << >>, free |-> FALSE, done |-> FALSE]
Init == vChunk \in 1..Len(Chunks) /\ vPos = 0 /\ vSt = None
Next == /\ vPos < Len(Chunks[vChunk])
        /\ vPos' = vPos + 1
        /\ UNCHANGED vChunk
        /\ LET x == CStep(vSt, Chunks[vChunk][vPos + 1]) IN
           /\ vSt' = x.s
           /\ (x.bad # {} => PrintT(<<"BAD", vChunk, vPos + 1, x.bad>>))
Spec == Init /\ [][Next]_vars
=============================================================================
