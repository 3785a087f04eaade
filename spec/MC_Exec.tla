------------------------------- MODULE MC_Exec -------------------------------
(* The instruction semantics is self-consistent: executed in a few contrasting*)
(* states, every 16-bit word (and 32-bit words of every encoding) writes only *)
(* what it declares, and a push is undone by the pop of the same list.        *)
EXTENDS Asm
CONSTANTS Stride, MaxK           \* first halfwords taken, pairs of states and second halfwords
VARIABLES vH, vK
vars == <<vH, vK>>
Val(k, i) == CASE k = 0 -> <<i * 257, 65535 - i>>
               [] k = 1 -> <<65535, 65532 - 4 * i>>
               [] k = 2 -> <<32768, i * 4>>
               [] OTHER -> <<0, 4096 + 64 * i>>
State(k) ==
  [mk |-> "flat", seed |-> k, it |-> IF k = 2 THEN 1 ELSE 0, dsp |-> k % 2, fp |-> k \div 2, m |-> EmptyMap, rgs |-> << >>,
   r |-> [i \in Regs |-> CASE i = PC -> <<k * 8192, 256>>
                           [] i = XPSR -> <<k * 20480 + 256, 3>>
                           [] i = CONTROL -> Zero
                           [] OTHER -> Val(k, i)]]
Ks == 0..(MaxK - 1)
Init == vH \in {Stride * j : j \in 0..(65535 \div Stride)} /\ vK = -1
Next == vK = -1 /\ vK' \in Ks /\ UNCHANGED vH
Spec == Init /\ [][Next]_vars
H2s == <<3844, 4110, 61569, 2566, 61955, 33042, 61440, 28927, 2308, 20484, 49151, 24831, 61578, 64000, 36703, 63616>>
H2 == H2s[vK + 1]
D == DecodeN(vH, H2, 4)
S0 == State((vK + vK \div 4) % 4)
WBytes(xs) == UNION { { AddN(xs[i][1], j) : j \in 0..(xs[i][2] - 1) } : i \in 1..Len(xs) }
Inv == vK # -1 /\ D.st = "ok" =>
  LET x == Exec(S0, D.e, D.f) IN
  /\ \A i \in Regs \ (x.wr \cup {PC, XPSR}) : x.r[i] = S0.r[i]
  /\ \A i \in Regs : IsWord(x.r[i])
  /\ XPSR \notin x.wr => /\ x.r[XPSR][2] = S0.r[XPSR][2]
                         /\ x.r[XPSR][1] % 4096 = S0.r[XPSR][1] % 4096
                         /\ ((x.r[XPSR][1] \div 4096) ^^ (S0.r[XPSR][1] \div 4096)) & (15 - x.fl) = 0
  /\ DOMAIN x.m = WBytes(x.wm)
  /\ \A a \in DOMAIN x.m : x.m[a] \in 0..255
  /\ D.e.k \notin {"bcond", "b", "bl", "bx", "blx"} =>
       \/ x.r[PC] = AddN(S0.r[PC], Size(D.e))
       \/ ("d" \in DOMAIN D.f /\ D.f["d"] = 15) \/ ("t" \in DOMAIN D.f /\ D.f["t"] = 15)
       \/ D.e.k \in {"pop", "ldmw"}
  \* pop undoes push
  /\ D.e.k \in {"push", "push1"} =>
       LET l == RegList(D.e, D.f)
           s1 == [S0 EXCEPT !.m = x.m, !.r = [i \in Regs |-> IF i \in RegSet(l) THEN Zero ELSE x.r[i]]]
           y == PopList(s1, D.e, l)
       IN \A i \in Regs \ {PC} : y.r[i] = S0.r[i]
  \* a conditional branch and its opposite: exactly one is taken
  /\ D.e.k = "bcond" => Holds(S0.r, D.f["c"]) # Holds(S0.r, D.f["c"] ^^ 1)
  \* the text has its fixed columns
  /\ Len(Text(D.e, D.f, vH, H2, S0.r[PC])) >= 21
=============================================================================
