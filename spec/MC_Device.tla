------------------------------ MODULE MC_Device ------------------------------
(* All short histories of writes to the device, with what the last write to   *)
(* each register and to each byte was kept on the side.                       *)
EXTENDS Device
VARIABLES vD, vLast, vByte, vN
vars == <<vD, vLast, vByte, vN>>
Vals == { Zero, <<0, 2>>, <<0, 3>>, <<0, 5>>, <<0, 257>>, <<65535, 65535>> }
Written == {SP, MSP, PSP, PRIMASK, BASEPRI, CONTROL}
Starts == { <<0, 0>>, <<0, 2>> }
Addrs == { <<0, 0>>, <<0, 1>>, <<0, 3>>, <<0, 4>>, <<65535, 65535>> }
CONSTANTS MaxRegWrites, MaxMemWrites
Init == vD = NewDevice /\ vLast = [i \in Written |-> Zero] /\ vByte = EmptyMap /\ vN = 0
\* ghost: value a byte address was last given, as an array over <<region, offset>>
WriteReg1 == /\ vN < MaxRegWrites /\ vD.rgs = << >>
             /\ \E i \in Written, v \in Vals :
                  /\ vD' = DWriteReg(vD, i, v)
                  /\ vLast' = [vLast EXCEPT ![i] = v]
             /\ vN' = vN + 1 /\ UNCHANGED vByte
AddMem == /\ vD.r = NewDevice.r /\ Len(vD.rgs) < 2 /\ vN = 0
          /\ \E s \in Starts, n \in {0, 2, 5} : vD' = DAddMemory(vD, s, n)
          /\ UNCHANGED <<vLast, vByte, vN>>
WriteMem == /\ vD.rgs # << >> /\ vN < MaxMemWrites
            /\ \E a \in Addrs, n \in {1, 2, 4}, b \in {7, 255} :
                 LET bs == [j \in 1..n |-> (b + j) % 256]
                     f  == Find(vD.rgs, a)
                 IN /\ vD' = DWrite(vD, a, bs)
                    /\ vByte' = IF f = 0 THEN vByte
                                ELSE LET o == Offset(vD.rgs[f], a) IN
                                     [k \in (DOMAIN vByte) \cup { <<f, o + j - 1>> : j \in { j \in 1..n : o + j <= vD.rgs[f].len } } |->
                                        IF k[1] = f /\ k[2] >= o /\ k[2] < o + n THEN bs[k[2] - o + 1] ELSE vByte[k]]
            /\ vN' = vN + 1 /\ UNCHANGED vLast
Next == WriteReg1 \/ AddMem \/ WriteMem
Spec == Init /\ [][Next]_vars
InvReg == Banked(vD) /\ Aligned(vD) /\ Narrowed(vD)
InvMem == Contained(vD) /\ vD.m = vByte
\* a wide read is made of the byte reads of the same region
InvRead == \A a \in Addrs, n \in {2, 4} :
  LET w == MockRead(vD.rgs, vD.m, a, n) IN
  /\ Len(w) = n /\ w[1] = MockRead(vD.rgs, vD.m, a, 1)[1]
  /\ Find(vD.rgs, a) = 0 => \A j \in 1..n : w[j] = 0
  /\ Find(vD.rgs, a) # 0 => \A j \in 1..n : LET k == <<Find(vD.rgs, a), Offset(vD.rgs[Find(vD.rgs, a)], a) + j - 1>>
                                            IN w[j] = IF k \in DOMAIN vByte THEN vByte[k] ELSE 0
\* a block read is a prefix of what single reads give
InvBlock == \A a \in Addrs, n \in 0..6 :
  LET b == MockReadBlock(vD.rgs, vD.m, a, n) IN
  Len(b) <= n /\ \A j \in 1..Len(b) : b[j] = MockRead(vD.rgs, vD.m, a, j)[j]
=============================================================================
