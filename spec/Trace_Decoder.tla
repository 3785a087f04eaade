----------------------------- MODULE Trace_Decoder -----------------------------
(* Recorded uses of decoders and decoder trees made from them.                *)
(*  <<"tree">>                            a new, empty tree                   *)
(*  <<"add", id, text1, text2, beh, exc>> an encoding is made and registered; *)
(*        texts are sequences of characters, text2 is <<"none">> for one halfword;*)
(*        beh = <<bit, a, b>>: its handler does a when the bit is set, else b *)
(*  <<"build", exc>>                                                          *)
(*  <<"dump", exc, ids>>                  ids of the encodings printed, sorted *)
(*  <<"decode", h1, h2, n, addr, calls, st, id, size, raddr>> n bytes given; calls: *)
(*        <<id, <<<<name, bits>>, ...>>>> for every handler called; st ok,    *)
(*        undef, unpred or an exception; id, size, address of what was returned *)
EXTENDS Selection, TLC, IOUtils, Json

Chunks == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vChunk, vPos, vSt
vars == <<vChunk, vPos, vSt>>
Bad(c, t) == IF c THEN {t} ELSE {}
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
HalfBits(h) == [i \in 1..16 |-> (h \div Pow2[17 - i]) % 2]
Wide(h1) == h1 \div 2048 \in {29, 30, 31}

NewTree == [d16 |-> << >>, d32 |-> << >>, b16 |-> << >>, b32 |-> << >>, any |-> FALSE]
Made(ev) == LET p == Pattern(ev[3], 16) q == Pattern(ev[4], 16) IN
  IF ev[4] = <<"none">> THEN p
  ELSE IF p.st = "err" \/ q.st = "err" THEN [p EXCEPT !.st = "err"]
  ELSE IF p.st = "any" \/ q.st = "any" \/ ~Plain(p.items \o q.items) THEN [p EXCEPT !.st = "any"]
  ELSE [st |-> "ok", items |-> p.items \o q.items]
Does(d, ws) == LET n == Len(ws) b == d.beh[1] % n IN       \* bit 0 is the last one of the first halfword
               IF ws[IF b < 16 THEN 16 - b ELSE 48 - b] = 1 THEN d.beh[2] ELSE d.beh[3]
ToSet(s) == {s[i] : i \in 1..Len(s)}
DStep(s, ev) ==
  CASE ev[1] = "tree" -> [s |-> NewTree, bad |-> {}]
    [] ev[1] = "add" ->
         LET p == Made(ev) IN
         IF p.st = "any" THEN [s |-> [s EXCEPT !.any = TRUE], bad |-> {}]   \* no claim about this tree
         ELSE IF p.st = "err" THEN [s |-> s, bad |-> Bad(ev[6] \notin {"ValueError", "AssertionError"}, "accepted")]
         ELSE IF ev[6] # "" THEN [s |-> s, bad |-> {"rejected"}]
         ELSE LET d == [id |-> ev[2], f |-> AllBits(p.items), items |-> p.items, beh |-> ev[5]] IN
              [s |-> IF ev[4] = <<"none">> THEN [s EXCEPT !.d16 = Append(@, d)] ELSE [s EXCEPT !.d32 = Append(@, d)], bad |-> {}]
    [] ev[1] = "build" -> [s |-> [s EXCEPT !.b16 = s.d16, !.b32 = s.d32], bad |-> Bad(ev[2] # "", "exception")]
    [] ev[1] = "dump" ->
         [s |-> s, bad |-> IF s.any THEN {} ELSE IF ev[2] # "" THEN {"exception"} ELSE
                           Bad(\/ Len(ev[3]) # Len(s.b16) + Len(s.b32)
                               \/ ToSet(ev[3]) # {d.id : d \in ToSet(s.b16) \cup ToSet(s.b32)}, "dump")]
    [] ev[1] = "decode" /\ s.any -> [s |-> s, bad |-> {}]
    [] ev[1] = "decode" /\ ~s.any ->
         LET w  == Wide(ev[2])
             ds == IF w THEN s.b32 ELSE s.b16
             ws == IF w THEN HalfBits(ev[2]) \o HalfBits(ev[3]) ELSE HalfBits(ev[2])
             x  == IF w /\ ev[4] < 4 THEN [calls |-> << >>, st |-> "undef", id |-> 0]
                   ELSE Select(ds, ws, [i \in 1..Len(ds) |-> Does(ds[i], ws)])
             at(id) == CHOOSE d \in ToSet(ds) : d.id = id
         IN [s |-> s,
             bad |-> Bad(ev[7] # x.st, "outcome")
                \cup Bad([i \in 1..Len(ev[6]) |-> ev[6][i][1]] # x.calls, "turns")
                \cup Bad(\E i \in 1..Len(ev[6]) : /\ ev[6][i][1] \in {d.id : d \in ToSet(ds)}
                            /\ LET F == FieldsOf(at(ev[6][i][1]).items, ws) IN
                               ToSet(ev[6][i][2]) # F \/ Len(ev[6][i][2]) # Cardinality(F), "fields")
                \cup (IF x.st = "ok" /\ ev[7] = "ok"
                      THEN Bad(ev[8] # x.id, "which") \cup Bad(ev[9] # (IF w THEN 4 ELSE 2), "size") \cup Bad(ev[10] # ev[5], "address")
                      ELSE {})]
Init == vChunk \in 1..Len(Chunks) /\ vPos = 0 /\ vSt = NewTree
Next == /\ vPos < Len(Chunks[vChunk])
        /\ vPos' = vPos + 1
        /\ UNCHANGED vChunk
        /\ LET x == DStep(vSt, Chunks[vChunk][vPos + 1]) IN
           /\ vSt' = x.s
           /\ (x.bad # {} => PrintT(<<"BAD", vChunk, vPos + 1, x.bad>>))
Spec == Init /\ [][Next]_vars
=============================================================================
