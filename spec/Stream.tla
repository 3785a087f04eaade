-------------------------------- MODULE Stream --------------------------------
(* Disassembly of a byte sequence: a stream st is                             *)
(*   [addr |-> start address, bs |-> bytes, off |-> bytes consumed, end]      *)
EXTENDS Decode, Word, TLC
HalfAt(bs, o) == IF Len(bs) >= o + 2 THEN bs[o + 1] + 256 * bs[o + 2] ELSE 0
NewStream(a, bs) == [addr |-> a, bs |-> bs, off |-> 0, end |-> FALSE]
Remaining(st) == Len(st.bs) - st.off
\* what the next element is: "end", "undef", "unpred" or "ok"
Peek(st) ==
  IF st.end \/ Remaining(st) < 2 THEN [st |-> "end"]
  ELSE LET d == DecodeN(HalfAt(st.bs, st.off), HalfAt(st.bs, st.off + 2), Remaining(st)) IN
       IF d.st = "undef" /\ Remaining(st) < 4 THEN [st |-> "end"] ELSE d
After(st, d) == IF d.st = "ok" THEN [st EXCEPT !.off = @ + Size(d.e)] ELSE [st EXCEPT !.end = TRUE]
=============================================================================
