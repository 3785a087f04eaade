----------------------------- MODULE Trace_Stream -----------------------------
(* Recorded uses of the disassembler, several streams at a time.              *)
(*  <<"N", id, addr, bytes>>                    a disassembly is started      *)
(*  <<"Y", id, outcome, mn, bytes, addr, text>> its next element is asked for *)
(*  <<"H", id, addr, unit, count, tail, n, got, kinds, where>>                *)
(*        stream id is now one of count times the bytes unit (an instruction) *)
(*        and tail, of which n elements were asked for and got came: their    *)
(*        mnemonics and bytes, and the addresses of some                      *)
(*  <<"Z", id, k, mn, bytes, addr, text>>       its k-th element, looked at again *)
(*        outcome: ok, end, undef, unpred or the name of another exception    *)
EXTENDS Asm, Stream, IOUtils, Json

Chunks == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vChunk, vPos, vSt
vars == <<vChunk, vPos, vSt>>
Pair(x) == <<x[1], x[2]>>
Bad(c, t) == IF c THEN {t} ELSE {}
\* what an element looks like
Element(st, d) == LET a == AddN(st.addr, st.off) IN
  <<Mnem(d.e, d.f), SubSeq(st.bs, st.off + 1, st.off + Size(d.e)), a,
    Text(d.e, d.f, HalfAt(st.bs, st.off), HalfAt(st.bs, st.off + 2), a)>>
Same(x, mn, bs, a, tx) ==
  Bad(mn # x[1], "mnemonic") \cup Bad(bs # x[2], "bytes") \cup Bad(Pair(a) # x[3], "address") \cup Bad(tx # x[4], "text: " \o x[4])
SStep(s, ev) ==
  CASE ev[1] = "N" -> [s |-> (ev[2] :> [st |-> NewStream(Pair(ev[3]), ev[4]), out |-> << >>]) @@ s, bad |-> {}]
    [] ev[1] = "Y" ->
         LET st == s[ev[2]].st  d == Peek(st) IN
         [s |-> [s EXCEPT ![ev[2]] = [st |-> After(st, d), out |-> IF d.st = "ok" THEN Append(@.out, Element(st, d)) ELSE @.out]],
          bad |-> IF ev[3] # d.st THEN {"outcome"}
                  ELSE IF d.st # "ok" THEN {}
                  ELSE Same(Element(st, d), ev[4], ev[5], ev[6], ev[7])]
    [] ev[1] = "H" ->
         LET u == ev[4]  n == ev[7]  len == Len(u)
             d == DecodeN(HalfAt(u, 0), HalfAt(u, 2), len)
             \* the elements of a stream do not depend on what precedes them (MC_Stream)
             rest == [i \in 1..(ev[5] - n) * len |-> u[((i - 1) % len) + 1]] \o ev[6] IN
         [s |-> [s EXCEPT ![ev[2]] = [st |-> NewStream(AddN(Pair(ev[3]), n * len), rest), out |-> << >>]],
          bad |-> IF d.st # "ok" \/ Size(d.e) # len THEN {"unit"}
                  ELSE Bad(ev[8] # n, "number of elements")
                    \cup Bad(ev[9] # <<<<Mnem(d.e, d.f), u>>>>, "elements")
                    \cup Bad(\E i \in 1..Len(ev[10]) : Pair(ev[10][i][2]) # AddN(Pair(ev[3]), ev[10][i][1] * len), "address")]
    [] ev[1] = "Z" -> [s |-> s, bad |-> Same(s[ev[2]].out[ev[3]], ev[4], ev[5], ev[6], ev[7])]
Init == vChunk \in 1..Len(Chunks) /\ vPos = 0 /\ vSt = [i \in {} |-> 0]
Next == /\ vPos < Len(Chunks[vChunk])
        /\ vPos' = vPos + 1
        /\ UNCHANGED vChunk
        /\ LET x == SStep(vSt, Chunks[vChunk][vPos + 1]) IN
           /\ vSt' = x.s
           /\ (x.bad # {} => PrintT(<<"BAD", vChunk, vPos + 1, x.bad>>))
Spec == Init /\ [][Next]_vars
=============================================================================
