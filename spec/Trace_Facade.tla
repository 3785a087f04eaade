----------------------------- MODULE Trace_Facade -----------------------------
(* Recorded histories of CPU models over delegates of independent cells.      *)
(*  <<"0", seed, regs>>                     a delegate is set up              *)
(*  <<"M", k>>                              the k-th one is used from now on  *)
(*  <<"G", how, arg, exc, v, width, E>>     read a register                   *)
(*  <<"Q", exc, v, E>>                      is it privileged?                 *)
(*  <<"P", how, arg, v, exc, E, int>>       write one, and whether an integer *)
(*                                          arrived                           *)
(*  <<"H", how, arg, exc, E>>               an index out of range             *)
(*  <<"U", exc, lines, E>>  <<"V", exc, text, E>>     dump(), repr()          *)
(*  <<"Z", exc, E>>                         used without a delegate           *)
(*  <<"L", addr, n, exc, v, width, E>>      memory read through the model     *)
(*  <<"S", addr, bytes, n, exc, E>>         memory write (n = 0: a block)     *)
(*  <<"B", addr, n, exc, bytes, E>>         block read                        *)
(* E, the effect, is four fields: registers and bytes of the delegate that    *)
(* changed, the memory calls it saw, and how many calls other delegates saw.  *)
EXTENDS Facade, IOUtils, Json

Chunks == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vChunk, vPos, vSt
vars == <<vChunk, vPos, vSt>>
Pair(x) == <<x[1], x[2]>>
RECURSIVE PutRegs(_, _)
PutRegs(r, ps) == IF ps = << >> THEN r
                  ELSE PutRegs([r EXCEPT ![Head(ps)[1]] = <<Head(ps)[2], Head(ps)[3]>>], Tail(ps))
Bad(c, t) == IF c THEN {t} ELSE {}
Calls(cs) == [i \in 1..Len(cs) |-> <<cs[i][1], Pair(cs[i][2]), cs[i][3]>>]
RECURSIVE PutBytes(_, _)
PutBytes(m, ps) == IF ps = << >> THEN m
                   ELSE PutBytes((Pair(Head(ps)) :> Head(ps)[3]) @@ m, Tail(ps))
Differ(d, m1, m2) == \E k \in (DOMAIN m1) \cup (DOMAIN m2) : FlatByte(m1, k, d.seed) # FlatByte(m2, k, d.seed)
\* position of the effect in an event
At(ev) == CASE ev[1] = "G" -> 7 [] ev[1] = "Q" -> 4 [] ev[1] = "P" -> 6 [] ev[1] = "H" -> 5 [] ev[1] \in {"U", "V"} -> 4
            [] ev[1] = "Z" -> 3 [] ev[1] = "L" -> 7 [] ev[1] = "S" -> 6 [] ev[1] = "B" -> 6
\* an operation on delegate d that may change cell `reg' (-1: none) and leaves memory m, with these calls
Effects(d, ev, reg, m, calls) ==
  LET k == At(ev)
      ar == PutRegs(d.r, ev[k])
      am == PutBytes(d.m, ev[k + 1])
  IN [s |-> [d EXCEPT !.r = ar, !.m = am],
      bad |-> Bad(\E j \in AllRegs \ {reg} : ar[j] # d.r[j], "frame")
              \cup Bad(Differ(d, am, m), "memory")
              \cup Bad(Calls(ev[k + 2]) # calls, "access") \cup Bad(ev[k + 3] # 0, "other")]
With(x, bad) == [x EXCEPT !.bad = @ \cup bad]
Quiet(d, ev) == Effects(d, ev, -1, d.m, << >>)
OStep(d, ev) ==
  CASE ev[1] = "G" ->
         LET x == View(d.r, ev[2], ev[3]) IN
         With(Quiet(d, ev), IF ev[4] # "" THEN {"exception"}
                            ELSE Bad(Pair(ev[5]) # x.v, "value") \cup Bad(ev[6] # x.w, "width"))
    [] ev[1] = "Q" -> With(Quiet(d, ev), Bad(ev[2] # "", "exception") \cup Bad((ev[3] = 1) # Privileged(d.r), "value"))
    [] ev[1] = "P" ->
         LET i == Reg(ev[2], ev[3])
             x == Effects(d, ev, i, d.m, << >>)
         IN With(x, Bad(ev[5] # "", "exception") \cup Bad(x.s.r[i] # Sent(d.r, ev[2], ev[3], Pair(ev[4])), "value")
                    \cup Bad(~ev[10], "type"))
    [] ev[1] = "H" -> With(Quiet(d, ev), Bad(ev[4] # "KeyError", "range"))
    [] ev[1] = "U" -> With(Quiet(d, ev), Bad(ev[2] # "", "exception") \cup Bad(ev[3] # DumpText(d.r), "text"))
    [] ev[1] = "V" -> With(Quiet(d, ev), Bad(ev[2] # "", "exception") \cup Bad(ev[3] # ReprText(d.r), "text"))
    [] ev[1] = "Z" -> With(Quiet(d, ev), Bad(ev[2] # "", "absent"))
    [] ev[1] = "L" ->
         LET a == Pair(ev[2]) IN
         With(Effects(d, ev, -1, d.m, << <<"r", a, 8 * ev[3]>> >>),
              IF ev[4] # "" THEN {"exception"}
              ELSE Bad(Pair(ev[5]) # BytesWord(FlatRead(d.m, d.seed, a, ev[3])), "value")
                   \cup Bad(ev[6] # 8 * ev[3], "width"))
    [] ev[1] = "S" ->
         LET a == Pair(ev[2]) IN
         With(Effects(d, ev, -1, FlatWrite(d.m, a, ev[3]),
                      << <<IF ev[4] = 0 THEN "wb" ELSE "w", a, IF ev[4] = 0 THEN Len(ev[3]) ELSE ev[4]>> >>),
              Bad(ev[5] # "", "exception"))
    [] ev[1] = "B" ->
         LET a == Pair(ev[2]) IN
         With(Effects(d, ev, -1, d.m, << <<"rb", a, ev[3]>> >>),
              IF ev[4] # "" THEN {"exception"} ELSE Bad(ev[5] # FlatRead(d.m, d.seed, a, ev[3]), "value"))
FStep(s, ev) ==
  CASE ev[1] = "0" -> [s |-> [cur |-> Len(s.d) + 1,
                              d |-> Append(s.d, [r |-> [i \in AllRegs |-> Pair(ev[3][i + 1])], m |-> EmptyMap, seed |-> ev[2]])],
                       bad |-> {}]
    [] ev[1] = "M" -> [s |-> [s EXCEPT !.cur = ev[2]], bad |-> {}]
    [] OTHER -> LET x == OStep(s.d[s.cur], ev) IN [s |-> [s EXCEPT !.d[s.cur] = x.s], bad |-> x.bad]
Init == vChunk \in 1..Len(Chunks) /\ vPos = 0 /\ vSt = [cur |-> 0, d |-> << >>]
Next == /\ vPos < Len(Chunks[vChunk])
        /\ vPos' = vPos + 1
        /\ UNCHANGED vChunk
        /\ LET x == FStep(vSt, Chunks[vChunk][vPos + 1]) IN
           /\ vSt' = x.s
           /\ (x.bad # {} => PrintT(<<"BAD", vChunk, vPos + 1, x.bad>>))
Spec == Init /\ [][Next]_vars
=============================================================================
