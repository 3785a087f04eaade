------------------------------- MODULE MC_Prog -------------------------------
(* Whole programs, run by the sequential semantics to their end, compute what *)
(* they were written to compute: a counted loop, a recursive function with a  *)
(* stack, a block fill, a program that overwrites its next instruction, gcd,  *)
(* bit count, 64-bit sum, block copy and a computed jump, for all parameters. *)
EXTENDS Prog, FiniteSets
CONSTANTS MaxN, Stacks          \* size of the parameters, where the stack is
VARIABLES vWhat, vN, vK, vT, vSteps
vars == <<vWhat, vN, vK, vT, vSteps>>
Code(what, n, k) ==
  CASE what = "loop" -> <<8192 + n, 8448, 12544 + k, 14337, 53756>>
         \* movs r0,#n; movs r1,#0; L: adds r1,#k; subs r0,#1; bne L
    [] what = "sum" -> <<8192 + n, 61440, 63489, 57353, 10240, 53254, 46337, 14337, 63487, 65530, 48134, 6208, 18192, 18288>>
         \* movs r0,#n; bl F; b end; F: cmp r0,#0; beq X; push {r0,lr}; subs r0,#1; bl F; pop {r1,r2};
         \* adds r0,r0,r1; bx r2; X: bx lr
    [] what = "fill" -> <<8192 + n, 14337, 21521, 10240, 53755>>
         \* movs r0,#n; L: subs r0,#1; strb r1,[r2,r0]; cmp r0,#0; bne L
    [] what = "patch" -> <<32785, 48896, 8960>>
         \* strh r1,[r2]; nop; movs r3,#0 (overwritten)
    [] what = "gcd" -> <<17032, 53252, 55297, 6665, 59386, 6720, 59384>>
         \* L: cmp r0,r1; beq end; bhi G; subs r1,r1,r0; b L; G: subs r0,r0,r1; b L
    [] what = "bits" -> <<8448, 8704, 2112, 16721, 10240, 53755>>
         \* movs r1,#0; movs r2,#0; L: lsrs r0,r0,#1; adcs r1,r2; cmp r0,#0; bne L
    [] what = "add64" -> <<6272, 16729>>
         \* adds r0,r0,r2; adcs r1,r3
    [] what = "copy" -> <<51760, 49968, 14337, 53755>>
         \* L: ldm r2!,{r4,r5}; stm r3!,{r4,r5}; subs r0,#1; bne L
    [] what = "jump" -> <<128, 12297, 18176, 48896>> \o
                        [ j \in 1..16 |-> IF j % 2 = 1 THEN 8960 + (j \div 2)
                                          ELSE 57344 + ((2048 + 13 - (j - 2)) % 2048) ]
         \* lsls r0,r0,#2; adds r0,#9; bx r0; nop; then 8 times movs r3,#i; b end
RECURSIVE Flatten(_)
Flatten(hs) == IF hs = << >> THEN << >> ELSE <<Head(hs) % 256, Head(hs) \div 256>> \o Flatten(Tail(hs))
RamSize == 128
Old(o, k) == (7 * o + k + 1) % 256        \* what the block copy copies
StartRegs(what, n, k) ==
  CASE what = "patch" -> [MockInit EXCEPT ![1] = <<0, 8960 + k>>, ![2] = <<0, 4>>]
    [] what = "gcd" -> [MockInit EXCEPT ![0] = <<0, n>>, ![1] = <<0, k + 1>>]
    [] what = "bits" -> [MockInit EXCEPT ![0] = <<n * 257 + k, 65535 - k>>]
    [] what = "add64" -> [MockInit EXCEPT ![0] = <<65535, 65536 - n>>, ![1] = <<k, n>>, ![2] = <<0, k>>, ![3] = <<65535, 65535 - n>>]
    [] what = "copy" -> [MockInit EXCEPT ![0] = <<0, (n % 8) + 1>>, ![2] = <<8192, 0>>, ![3] = <<8192, 64>>]
    [] what = "jump" -> [MockInit EXCEPT ![0] = <<0, n % 8>>]
    [] OTHER -> [MockInit EXCEPT ![1] = <<0, k>>, ![2] = <<8192, 16 + k>>]
Machine(what, n, k, st) ==
  LET bs == Flatten(Code(what, n, k)) IN
  [Blank EXCEPT !.mk = "mock",
     !.rgs = << [start |-> Zero, len |-> Len(bs)], [start |-> <<8192, 0>>, len |-> RamSize] >>,
     !.m = [key \in { <<1, o>> : o \in 0..(Len(bs) - 1) } \cup (IF what = "copy" THEN { <<2, o>> : o \in 0..63 } ELSE {}) |->
              IF key[1] = 1 THEN bs[key[2] + 1] ELSE Old(key[2], k)],
     !.r = MockWrite(StartRegs(what, n, k), SP, <<8192, st>>)]
Init == /\ vWhat \in {"loop", "sum", "fill", "patch", "gcd", "bits", "add64", "copy", "jump"} /\ vN \in 1..MaxN /\ vK \in {0, 1, 7, 64}
        /\ vT \in { Machine(vWhat, vN, vK, st) : st \in Stacks } /\ vSteps = 0
Running == AtPc(vT).st = "ok"
Next == Running /\ vT' = Run1(vT) /\ vSteps' = vSteps + 1 /\ UNCHANGED <<vWhat, vN, vK>>
Spec == Init /\ [][Next]_vars
Ram(o) == IF <<2, o>> \in DOMAIN vT.m THEN vT.m[<<2, o>>] ELSE 0
RECURSIVE Gcd(_, _), OneBits(_)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
OneBits(x) == IF x = 0 THEN 0 ELSE (x % 2) + OneBits(x \div 2)
Inv == /\ vT.r[SP] = vT.r[Bank(vT.r)]
       /\ \A key \in DOMAIN vT.m : key[2] < vT.rgs[key[1]].len
       /\ vSteps <= 16 * MaxN + 400
       /\ Running \/ AtPc(vT).st = "nomem"
       /\ ~Running =>
          /\ vT.r[PC] = <<0, 2 * Len(Code(vWhat, vN, vK))>>
          /\ vT.r[SP][2] \in Stacks
          /\ CASE vWhat = "loop" -> vT.r[1] = <<0, vN * vK>> /\ vT.r[0] = Zero /\ vSteps = 2 + 3 * vN
               [] vWhat = "sum" -> vT.r[0] = <<0, (vN * (vN + 1)) \div 2>> /\ vSteps = 3 + 8 * vN + 3
               [] vWhat = "fill" -> /\ \A o \in 0..(RamSize - 1) : Ram(o) = IF o >= 16 + vK /\ o < 16 + vK + vN THEN vK ELSE 0
                                    /\ vSteps = 1 + 4 * vN
               [] vWhat = "patch" -> vT.r[3] = <<0, vK>> /\ vSteps = 3
               [] vWhat = "gcd" -> vT.r[0] = <<0, Gcd(vN, vK + 1)>> /\ vT.r[1] = vT.r[0]
               [] vWhat = "bits" -> /\ vT.r[1] = <<0, OneBits(vN * 257 + vK) + OneBits(65535 - vK)>>
                                    /\ vT.r[0] = Zero
               [] vWhat = "add64" -> /\ vT.r[0] = IF vK >= vN THEN <<0, vK - vN>> ELSE <<65535, 65536 - (vN - vK)>>
                                     /\ vT.r[1] = IF vK >= vN THEN <<vK, 0>> ELSE <<(vK + 65535) % 65536, 65535>>
                                     /\ vSteps = 2
               [] vWhat = "copy" -> /\ \A o \in 0..(RamSize - 1) :
                                         Ram(o) = IF o < 64 THEN Old(o, vK)
                                                  ELSE IF o < 64 + 8 * ((vN % 8) + 1) THEN Old(o - 64, vK) ELSE 0
                                    /\ vT.r[2] = <<8192, 8 * ((vN % 8) + 1)>> /\ vT.r[3] = <<8192, 64 + 8 * ((vN % 8) + 1)>>
                                    /\ vSteps = 4 * ((vN % 8) + 1)
               [] vWhat = "jump" -> vT.r[3] = <<0, vN % 8>> /\ vSteps = 5
=============================================================================
