--------------------------------- MODULE Prog ---------------------------------
(* Sequential execution on a mock machine: the instruction at the PC (bit 0   *)
(* ignored) is fetched from the machine's own memory, decoded and executed.   *)
EXTENDS CpuEvents

FetchBytes(t) == MockReadBlock(t.rgs, t.m, ClearBit0(t.r[PC]), 4)
Half(bs, i) == IF Len(bs) >= i + 1 THEN bs[i] + 256 * bs[i + 1] ELSE 0
\* what is at the PC: "nomem", "undef", "unpred" or "ok" with the decoded instruction
AtPc(t) == LET bs == FetchBytes(t) IN
           IF bs = << >> THEN [st |-> "nomem"]
           ELSE IF Len(bs) < 2 THEN [st |-> "undef"]
           ELSE DecodeN(Half(bs, 1), Half(bs, 3), Len(bs))
\* one step; a stop leaves the state as it is
Run1(t) == LET d == AtPc(t) IN
           IF d.st # "ok" THEN t
           ELSE LET x == Exec(t, d.e, d.f) IN [t EXCEPT !.r = x.r, !.m = x.m]
=============================================================================
