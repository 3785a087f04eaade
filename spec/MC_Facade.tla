------------------------------ MODULE MC_Facade ------------------------------
(* Every way to name a register, against every other: what is written through *)
(* one is read through all that name the same register and through no other.  *)
EXTENDS Facade, FiniteSets
CONSTANT MaxWrites
VARIABLES vR, vGhost, vK
vars == <<vR, vGhost, vK>>
Namings == { <<"name", n>> : n \in DOMAIN NameTable }
           \cup { <<"name", "R7">>, <<"name", "Sp">>, <<"name", "XPSR">>, <<"name", "S31">>, <<"name", "PriMask">> }
           \cup { <<"num", n>> : n \in (-4..18) \cup {33} \cup 64..95 }
           \cup { <<"r", n>> : n \in 0..15 } \cup { <<"s", n>> : n \in 0..31 }
           \cup { <<"attr", n>> : n \in {"pc", "lr", "sp", "msp", "psp", "control", "xpsr"} }
RegMap == LET t == TLCEval(Namings) IN TLCEval([g \in t |-> Reg(g[1], g[2])])
Flags == { <<"flag", n>> : n \in {"n", "z", "c", "v"} }
ASSUME Cardinality({ Reg(g[1], g[2]) : g \in Namings }) = 56
ASSUME \A g \in Namings : Reg(g[1], g[2]) \in AllRegs
ASSUME \A a, b \in 0..15 : NameTable["r" \o DecText(a)] = NameTable["r" \o DecText(b)] => a = b
Init == vR = [i \in AllRegs |-> <<0, i>>] /\ vGhost = [i \in AllRegs |-> <<0, i>>] /\ vK = 0
Next == /\ vK < MaxWrites /\ vK' = vK + 1
        /\ \/ \E g \in DOMAIN RegMap : LET i == RegMap[g]  v == <<61440 + vK, 1000 * i>> IN
                /\ vR' = [vR EXCEPT ![i] = Sent(vR, g[1], g[2], v)]
                /\ vGhost' = [vGhost EXCEPT ![i] = v]
           \/ \E g \in Flags, b \in {0, 1} : LET old == vGhost[XPSR]  n == FlagBit[g[2]] IN
                /\ vR' = [vR EXCEPT ![XPSR] = Sent(vR, "flag", g[2], <<0, b>>)]
                /\ vGhost' = [vGhost EXCEPT ![XPSR] = <<(old[1] & (65535 - 2^(n - 16))) + b * 2^(n - 16), old[2]>>]
Spec == Init /\ [][Next]_vars
Inv == /\ \A g \in DOMAIN RegMap : ViewAt(vR, RegMap[g], g[1], g[2]) = [v |-> vGhost[RegMap[g]], w |-> 32]
       /\ \A g \in Flags : View(vR, g[1], g[2]) = [v |-> <<0, (vGhost[XPSR][1] \div 2^(FlagBit[g[2]] - 16)) % 2>>, w |-> 1]
=============================================================================
