------------------------------ MODULE Trace_Util ------------------------------
(* Recorded calls of the conversion utilities.                                *)
(*  <<function, args, exc, result, args afterwards>>                          *)
EXTENDS Util, TLC, IOUtils, Json
Chunks == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vChunk, vPos
vars == <<vChunk, vPos>>
Bad(c, t) == IF c THEN {t} ELSE {}
\* the set of bits that an argument of bitmask names
Named(a) == CASE a[1] = "range" -> Range(a[2], a[3])
              [] a[1] = "list" -> {a[2][i] : i \in 1..Len(a[2])}
              [] a[1] = "bit" -> {a[2]}
Lsb(a, i) == IF Len(a) < i THEN a[i - 1] ELSE a[i]
Result(f, a) ==
  CASE f = "bytes_to_le16" -> Half(a[1], a[2] + 1)
    [] f = "bytes_to_le32" -> Word32(a[1], a[2] + 1)
    [] f = "le16_to_bytes" -> Bytes16(a[1])
    [] f = "le32_to_bytes" -> Bytes32(a[1])
    [] f = "byteListToU32leList" -> Words32(a[1])
    [] f = "byteListToU16leList" -> Halves(a[1])
    [] f = "u32leListToByteList" -> OfWords32(a[1])
    [] f = "u16leListToByteList" -> OfHalves(a[1])
    [] f = "u32BEToFloat32BE" -> Float(a[1], 8, 23)
    [] f = "roundtrip" -> IF Float(a[1], 8, 23)[1] = "nan" THEN << >> ELSE Norm(a[1])
    [] f = "hamming_weight" -> BitCount(a[1])
    [] f = "wmask" -> MaskOf(0..(a[1] - 1))
    [] f = "bitmask" -> MaskOf(UNION {Named(a[i]) : i \in 1..Len(a)})
    [] f = "invert32" -> Norm(BNot(Fit(a[1], 32)))
    [] f = "bfx" -> Extract(a[1], a[2], Lsb(a, 3))
    [] f = "bfi" -> Insert(a[1], a[2], a[3], Lsb(a, 4))
Init == vChunk \in 1..Len(Chunks) /\ vPos = 0
Next == /\ vPos < Len(Chunks[vChunk])
        /\ vPos' = vPos + 1
        /\ UNCHANGED vChunk
        /\ LET ev == Chunks[vChunk][vPos + 1]
               r == Result(ev[1], ev[2])
               bad == Bad(ev[3] # "", "exception") \cup Bad(ev[5] # ev[2], "argument")
                      \cup Bad(ev[3] = "" /\ ev[4] # r, "result")
           IN bad # {} => PrintT(<<"BAD", vChunk, vPos + 1, bad>>)
Spec == Init /\ [][Next]_vars
=============================================================================
