------------------------------ MODULE Encodings ------------------------------
(* The supported Thumb / Thumb-2 encodings and what each one denotes, written *)
(* from the ARMv6-M/v7-M manual's encoding diagrams: one letter per bit, all  *)
(* bits of one letter (most significant first, over both halfwords) are one   *)
(* field.                                                                     *)
(*   mn    mnemonic (the s / .w suffixes that depend on S are added by Mnem)  *)
(*   p, q  first and second halfword ("" for 16-bit encodings)                *)
(*   g     group = the property that claims its execution                     *)
(*   k, a  instruction class and class argument, interpreted by Isa!          *)
EXTENDS Naturals, Sequences, Bitwise, TLC, SequencesExt, FiniteSets

E16(mn, p, g, k, a)    == [mn |-> mn, p |-> p, q |-> "", g |-> g, k |-> k, a |-> a]
E32(mn, p, q, g, k, a) == [mn |-> mn, p |-> p, q |-> q,  g |-> g, k |-> k, a |-> a]

Encodings == <<
  \* --- arithmetic and compare
  E16("adcs", "0100000101mmmddd", "arith", "dp2",  "adc"),
  E16("sbcs", "0100000110mmmddd", "arith", "dp2",  "sbc"),
  E16("adds", "0001110iiinnnddd", "arith", "dpi",  "add"),
  E16("subs", "0001111iiinnnddd", "arith", "dpi",  "sub"),
  E16("adds", "00110dddiiiiiiii", "arith", "dpi2", "add"),
  E16("subs", "00111dddiiiiiiii", "arith", "dpi2", "sub"),
  E16("adds", "0001100mmmnnnddd", "arith", "dp3",  "add"),
  E16("subs", "0001101mmmnnnddd", "arith", "dp3",  "sub"),
  E16("add",  "01000100dmmmmddd", "arith", "addhi", ""),
  E16("add",  "10101dddiiiiiiii", "arith", "addsp", ""),
  E16("add",  "01000100d1101ddd", "arith", "addspr1", ""),
  E16("add",  "010001001mmmm101", "arith", "addspr2", ""),
  E16("add",  "101100000iiiiiii", "arith", "spimm", "add"),
  E16("sub",  "101100001iiiiiii", "arith", "spimm", "sub"),
  E16("rsbs", "0100001001nnnddd", "arith", "rsb0", ""),
  E32("rsb",  "11110i01110Snnnn", "0iiiddddiiiiiiii", "arith", "rsbw", ""),
  E16("muls", "0100001101nnnddd", "arith", "mul2", ""),
  E32("mul",  "111110110000nnnn", "1111dddd0000mmmm", "arith", "mul3", ""),
  E16("adr",  "10100dddiiiiiiii", "arith", "adr", "add4"),
  E32("adr.w","11110i1010101111", "0iiiddddiiiiiiii", "arith", "adr", "sub"),
  E32("adr.w","11110i1000001111", "0iiiddddiiiiiiii", "arith", "adr", "add"),
  E16("cmp",  "00101nnniiiiiiii", "arith", "cmpi", "cmp"),
  E16("cmp",  "0100001010mmmnnn", "arith", "cmpr", "cmp"),
  E16("cmn",  "0100001011mmmnnn", "arith", "cmpr", "cmn"),
  E16("cmp",  "01000101nmmmmnnn", "arith", "cmpr", "cmp"),
  E32("cmp.w","11110i011011nnnn", "0iii1111iiiiiiii", "arith", "cmpw", "cmp"),
  E32("cmn",  "11110i010001nnnn", "0iii1111iiiiiiii", "arith", "cmpw", "cmn"),
  \* --- logical, shift, move, test
  E16("ands", "0100000000mmmddd", "logic", "dp2",  "and"),
  E16("eors", "0100000001mmmddd", "logic", "dp2",  "eor"),
  E16("orrs", "0100001100mmmddd", "logic", "dp2",  "orr"),
  E16("bics", "0100001110mmmddd", "logic", "dp2",  "bic"),
  E16("lsls", "0100000010mmmddd", "logic", "shr",  "lsl"),
  E16("lsrs", "0100000011mmmddd", "logic", "shr",  "lsr"),
  E16("asrs", "0100000100mmmddd", "logic", "shr",  "asr"),
  E16("rors", "0100000111mmmddd", "logic", "shr",  "ror"),
  E16("lsls", "00000iiiiimmmddd", "logic", "shi",  "lsl"),
  E16("lsrs", "00001iiiiimmmddd", "logic", "shi",  "lsr"),
  E16("asrs", "00010iiiiimmmddd", "logic", "shi",  "asr"),
  E16("mov",  "01000110dmmmmddd", "logic", "movhi", ""),
  E16("movs", "0000000000mmmddd", "logic", "movs", ""),
  E32("mov",  "11101010010S1111", "0000dddd0000mmmm", "logic", "movw3", ""),
  E16("movs", "00100dddiiiiiiii", "logic", "movi", ""),
  E32("mov",  "11110i00010S1111", "0iiiddddiiiiiiii", "logic", "moviw", ""),
  E32("movw", "11110i100100jjjj", "0iiiddddiiiiiiii", "logic", "movw", ""),
  E16("mvns", "0100001111mmmddd", "logic", "mvn", ""),
  E32("mvn",  "11101010011S1111", "0iiiddddiiyymmmm", "logic", "mvnw", ""),
  E16("tst",  "0100001000mmmnnn", "logic", "tst", ""),
  E32("tst.w","111010100001nnnn", "0iii1111iiyymmmm", "logic", "tstw", ""),
  \* --- extend, byte reverse
  E16("sxth", "1011001000mmmddd", "extend", "ext", "sh"),
  E16("sxtb", "1011001001mmmddd", "extend", "ext", "sb"),
  E16("uxth", "1011001010mmmddd", "extend", "ext", "uh"),
  E16("uxtb", "1011001011mmmddd", "extend", "ext", "ub"),
  E32("sxth.w","1111101000001111", "1111dddd10rrmmmm", "extend", "ext", "sh"),
  E32("sxtb.w","1111101001001111", "1111dddd10rrmmmm", "extend", "ext", "sb"),
  E32("uxth.w","1111101000011111", "1111dddd10rrmmmm", "extend", "ext", "uh"),
  E32("uxtb.w","1111101001011111", "1111dddd10rrmmmm", "extend", "ext", "ub"),
  E16("rev",  "1011101000mmmddd", "extend", "rev", "rev"),
  E16("rev16","1011101001mmmddd", "extend", "rev", "rev16"),
  E16("revsh","1011101011mmmddd", "extend", "rev", "revsh"),
  E32("rev.w","111110101001nnnn", "1111dddd1000mmmm", "extend", "rev", "rev"),
  E32("rev16.w","111110101001nnnn", "1111dddd1001mmmm", "extend", "rev", "rev16"),
  E32("revsh.w","111110101001nnnn", "1111dddd1011mmmm", "extend", "rev", "revsh"),
  \* --- single load and store; argument: <<load, bytes, signed>>
  E16("str",  "0101000mmmnnnttt", "ldst", "lsr", <<0, 4, 0>>),
  E16("strh", "0101001mmmnnnttt", "ldst", "lsr", <<0, 2, 0>>),
  E16("strb", "0101010mmmnnnttt", "ldst", "lsr", <<0, 1, 0>>),
  E16("ldrsb","0101011mmmnnnttt", "ldst", "lsr", <<1, 1, 1>>),
  E16("ldr",  "0101100mmmnnnttt", "ldst", "lsr", <<1, 4, 0>>),
  E16("ldrh", "0101101mmmnnnttt", "ldst", "lsr", <<1, 2, 0>>),
  E16("ldrb", "0101110mmmnnnttt", "ldst", "lsr", <<1, 1, 0>>),
  E16("ldrsh","0101111mmmnnnttt", "ldst", "lsr", <<1, 2, 1>>),
  E32("ldrb.w", "111110000001nnnn", "tttt000000xxmmmm", "ldst", "lsrw", <<1, 1, 0>>),
  E32("ldrh.w", "111110000011nnnn", "tttt000000xxmmmm", "ldst", "lsrw", <<1, 2, 0>>),
  E32("ldr.w",  "111110000101nnnn", "tttt000000xxmmmm", "ldst", "lsrw", <<1, 4, 0>>),
  E32("ldrsb.w","111110010001nnnn", "tttt000000xxmmmm", "ldst", "lsrw", <<1, 1, 1>>),
  E32("ldrsh.w","111110010011nnnn", "tttt000000xxmmmm", "ldst", "lsrw", <<1, 2, 1>>),
  E32("strb.w", "111110000000nnnn", "tttt000000xxmmmm", "ldst", "lsrw", <<0, 1, 0>>),
  E32("strh.w", "111110000010nnnn", "tttt000000xxmmmm", "ldst", "lsrw", <<0, 2, 0>>),
  E32("str.w",  "111110000100nnnn", "tttt000000xxmmmm", "ldst", "lsrw", <<0, 4, 0>>),
  E16("str",  "01100iiiiinnnttt", "ldst", "lsi", <<0, 4, 0>>),
  E16("ldr",  "01101iiiiinnnttt", "ldst", "lsi", <<1, 4, 0>>),
  E16("strb", "01110iiiiinnnttt", "ldst", "lsi", <<0, 1, 0>>),
  E16("ldrb", "01111iiiiinnnttt", "ldst", "lsi", <<1, 1, 0>>),
  E16("strh", "10000iiiiinnnttt", "ldst", "lsi", <<0, 2, 0>>),
  E16("ldrh", "10001iiiiinnnttt", "ldst", "lsi", <<1, 2, 0>>),
  E16("ldr",  "01001tttiiiiiiii", "ldst", "lit", <<1, 4, 0>>),
  E32("ldr.w",  "11111000U1011111", "ttttiiiiiiiiiiii", "ldst", "litw", <<1, 4, 0>>),
  E32("ldrh.w", "11111000U0111111", "ttttiiiiiiiiiiii", "ldst", "litw", <<1, 2, 0>>),
  E32("ldrb.w", "11111000U0011111", "ttttiiiiiiiiiiii", "ldst", "litw", <<1, 1, 0>>),
  E32("ldrsh.w","11111001U0111111", "ttttiiiiiiiiiiii", "ldst", "litw", <<1, 2, 1>>),
  E32("ldrsb.w","11111001U0011111", "ttttiiiiiiiiiiii", "ldst", "litw", <<1, 1, 1>>),
  E16("str",  "10010tttiiiiiiii", "ldst", "lssp", <<0, 4, 0>>),
  E16("ldr",  "10011tttiiiiiiii", "ldst", "lssp", <<1, 4, 0>>),
  \* --- load and store multiple
  E16("push", "1011010Mrrrrrrrr", "multi", "push", 1),
  E16("pop",  "1011110Prrrrrrrr", "multi", "pop",  1),
  E32("push.w","1110100100101101", "0M0rrrrrrrrrrrrr", "multi", "push", 1),
  E32("push.w","1111100001001101", "tttt110100000100", "multi", "push1", ""),
  E32("pop.w","1110100010111101", "PM0rrrrrrrrrrrrr", "multi", "pop", 2),
  E32("pop.w","1111100001011101", "tttt101100000100", "multi", "pop1", ""),
  E16("stm",  "11000nnnrrrrrrrr", "multi", "stm", ""),
  E16("ldm",  "11001nnnrrrrrrrr", "multi", "ldm", ""),
  E32("stm.w","1110100010W0nnnn", "0M0rrrrrrrrrrrrr", "multi", "stmw", ""),
  E32("ldm.w","1110100010W1nnnn", "PM0rrrrrrrrrrrrr", "multi", "ldmw", ""),
  \* --- branches
  E16("b",    "1101cccciiiiiiii", "branch", "bcond", ""),
  E16("b",    "11100iiiiiiiiiii", "branch", "b", ""),
  E32("bl",   "11110Siiiiiiiiii", "11J1Kjjjjjjjjjjj", "branch", "bl", ""),
  E16("blx",  "010001111mmmm000", "branch", "blx", ""),
  E16("bx",   "010001110mmmm000", "branch", "bx", ""),
  \* --- system
  E16("cps",  "10110110011x00IF", "system", "cps", ""),
  E16("bkpt", "10111110iiiiiiii", "system", "immop", ""),
  E32("mrs",  "1111001111101111", "1000ddddssssssss", "system", "mrs", ""),
  E32("msr",  "111100111000nnnn", "1000xx00ssssssss", "msr", "msr", ""),
  E16("nop",  "1011111100000000", "system", "hint", ""),
  E16("yield","1011111100010000", "system", "hint", ""),
  E16("wfe",  "1011111100100000", "system", "hint", ""),
  E16("wfi",  "1011111100110000", "system", "hint", ""),
  E16("sev",  "1011111101000000", "system", "hint", ""),
  E32("dsb",  "1111001110111111", "100011110100oooo", "system", "barrier", ""),
  E32("dmb",  "1111001110111111", "100011110101oooo", "system", "barrier", ""),
  E32("isb",  "1111001110111111", "100011110110oooo", "system", "barrier", ""),
  E16("udf",  "11011110iiiiiiii", "system", "immop", ""),
  E16("svc",  "11011111iiiiiiii", "system", "immop", ""),
  E32("udf.w","111101111111iiii", "1010iiiiiiiiiiii", "system", "immop", "")
>>

NE == Len(Encodings)

-----------------------------------------------------------------------------
(* Compilation of the diagrams: mask and match per halfword, fields.          *)
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE FoldBits(_, _, _)
\* the number whose i-th most significant of 16 bits is 1 iff Ch(s,i) \in cs
FoldBits(s, cs, i) == IF i = 0 THEN 0
                      ELSE 2 * FoldBits(s, cs, i - 1) + (IF Ch(s, i) \in cs THEN 1 ELSE 0)
HMask(s)  == IF s = "" THEN 0 ELSE FoldBits(s, {"0", "1"}, 16)
HMatch(s) == IF s = "" THEN 0 ELSE FoldBits(s, {"1"}, 16)
Letters == {"c","d","g","i","j","k","m","n","o","r","s","t","x","y",
            "F","I","J","K","M","P","S","U","W"}
LettersOf(e) == { l \in Letters : \E i \in 1..16 : Ch(e.p, i) = l \/ (e.q # "" /\ Ch(e.q, i) = l) }
\* the bits of field l, most significant first, as <<halfword, weight>>
FieldBits(e, l) ==
  LET one(s, h, i) == IF Ch(s, i) = l THEN << <<h, 2^(16 - i)>> >> ELSE << >>
      RECURSIVE half(_, _, _)
      half(s, h, i) == IF i > 16 THEN << >> ELSE one(s, h, i) \o half(s, h, i + 1)
  IN half(e.p, 1, 1) \o (IF e.q = "" THEN << >> ELSE half(e.q, 2, 1))
\* runs of adjacent bits, as <<halfword, weight of lowest bit, 2^length>>
RECURSIVE Runs(_, _)
Runs(bits, acc) ==
  IF bits = << >> THEN acc
  ELSE LET b == Head(bits) IN
       IF acc # << >> /\ acc[Len(acc)][1] = b[1] /\ acc[Len(acc)][2] = 2 * b[2]
       THEN Runs(Tail(bits), [acc EXCEPT ![Len(acc)] = <<b[1], b[2], 2 * @[3]>>])
       ELSE Runs(Tail(bits), Append(acc, <<b[1], b[2], 2>>))
RECURSIVE Weight(_)
Weight(n) == IF n = 0 THEN 0 ELSE (n % 2) + Weight(n \div 2)

\* (TLC may evaluate a constant definition before the constants it refers to are
\* cached; the LETs make every one of them be computed once.)
Enc == TLCEval(LET es == Encodings IN [ i \in 1..Len(es) |->
  LET e == es[i] IN
    [ id |-> i, mn |-> e.mn, g |-> e.g, k |-> e.k, a |-> e.a, p |-> e.p, q |-> e.q,
      is32 |-> e.q # "",
      mask1 |-> HMask(e.p), match1 |-> HMatch(e.p),
      mask2 |-> HMask(e.q), match2 |-> HMatch(e.q),
      weight |-> Weight(HMask(e.p)) + Weight(HMask(e.q)),
      fields |-> [ l \in LettersOf(e) |-> Runs(FieldBits(e, l), << >>) ] ] ])

RECURSIVE Gather(_, _, _, _)
Gather(runs, h1, h2, acc) ==
  IF runs = << >> THEN acc
  ELSE LET r == Head(runs) IN
       Gather(Tail(runs), h1, h2, acc * r[3] + (((IF r[1] = 1 THEN h1 ELSE h2) \div r[2]) % r[3]))
Fields(e, h1, h2) == [ l \in DOMAIN e.fields |-> Gather(e.fields[l], h1, h2, 0) ]

\* Does a first halfword start a 32-bit instruction?
Is32(h1) == (h1 \div 2048) \in {29, 30, 31}

Matches(e, h1, h2) == (h1 & e.mask1) = e.match1 /\ (e.is32 => (h2 & e.mask2) = e.match2)

\* Encodings that can match a first halfword, by its top 8 bits, most specific first
Order == LET enc == Enc IN
  SetToSortSeq(DOMAIN enc, LAMBDA a, b : \/ enc[a].weight > enc[b].weight
                                         \/ enc[a].weight = enc[b].weight /\ a < b)
Bucket == TLCEval(LET enc == Enc  ord == TLCEval(Order) IN [ t \in 0..255 |->
  SelectSeq(ord, LAMBDA i : /\ enc[i].is32 = Is32(t * 256)
                            /\ ((t * 256) & enc[i].mask1) = (enc[i].match1 & 65280)) ])

Candidates(h1, h2) == SelectSeq(Bucket[h1 \div 256], LAMBDA i : Matches(Enc[i], h1, h2))
=============================================================================
