#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})

INS, DEC, BIT, MOD = "cmdis/instructions.py", "cmdis/decoder.py", "cmdis/bitstring.py", "cmdis/model.py"
MOCK, REG, HLP, FMT, UTL, DIS, CLI = ("cmdis/mock_cpu.py", "cmdis/registers.py", "cmdis/helpers.py",
    "cmdis/formatter.py", "cmdis/utilities.py", "cmdis/disasm.py", "cmdis/__main__.py")

p("C01", "Every 16-bit Thumb word decodes to its one architectural outcome",
  "Decoding any halfword that does not start a 32-bit instruction yields exactly the instruction the Thumb encoding table assigns to it (mnemonic, size 2, original bytes and the given address), or the undefined-instruction error where no supported encoding covers it, or the unpredictable error where the covering encoding says so. No other exception or result is possible, a more specific encoding always wins over a more general one, and bytes after the first two do not matter.",
  ["inputs"], "all 59392 halfwords outside the 32-bit prefixes, any address, any trailing bytes",
  "The tests decode about a hundred hand-picked words; a wrong or overlapping pattern shows only on the words it captures.",
  [INS, DEC], [("encoding table (instr decorators)", INS), ("decoder tree lookup", DEC)], ["decoder.decode()"])
p("C02", "Every 32-bit Thumb word decodes to its one architectural outcome",
  "Decoding any pair of halfwords whose first one is a 32-bit prefix yields exactly the instruction the Thumb-2 encoding table assigns to it (mnemonic with its s/.w suffix, size 4, original bytes and the given address), or the undefined-instruction error (also when fewer than four bytes are given), or the unpredictable error for the register and register-list restrictions of the covering encoding. No other exception or result is possible; an encoding that hands over to another one (\"see ...\") is never reported under its own name.",
  ["inputs"], "all 2^32 words with a 32-bit prefix, any address, any number of data bytes from 2 up",
  "A four-billion-word space of which the tests decode a few dozen; fields interact (register 13/15, list sizes, S, W, P and M bits).",
  [INS, DEC], [("encoding table and handlers' checks", INS), ("decoder tree lookup", DEC)], ["decoder.decode()"])
p("C03", "Decoder lookup equals most-specific-match for any set of encodings",
  "For any set of registered encodings and any word, decoding calls the matching encodings from the one with the most fixed bits to the one with the fewest (equally specific ones in registration order), skips those that decline, and returns the first one accepted; if there is none it raises the undefined-instruction error. An unpredictable error, or any error other than declining, raised by the encoding whose turn it is ends the search and reaches the caller as it is. Dumping a built tree lists every registered encoding exactly once.",
  ["configurations", "inputs"], "all finite sets of 16- and 32-bit patterns in any registration order, all words, all accept/decline behaviours",
  "The tests only use the built-in table, whose shape exercises a fraction of the tree-building cases (shared masks, empty common mask, single child, unknown key).",
  [DEC], [("tree construction", DEC), ("tree walk", DEC)], ["DecoderTree.add_decoder/build/decode"])
p("C04", "Encoding patterns match and extract exactly the bits they spell out",
  "An encoding pattern is a left-to-right list of fixed bits, named fields of n bits (one if no count is given) and named fields with fixed bits, with free white space; a word matches it exactly if all fixed bits agree, and every named field is delivered with exactly the bits at its position and with its width, the second pattern covering the second halfword. Patterns that are not 16 bits long or contain other characters are rejected.",
  ["inputs"], "all patterns of the grammar, one- and two-halfword, all words",
  "Only the patterns that the built-in table happens to use are parsed by any test.",
  [DEC], [("pattern parser", DEC), ("mask/match/field computation", DEC)], ["Decoder construction, match and decode"])
p("C05", "Arithmetic and compare instructions give exact 32-bit results and flags",
  "Executing any decoded add, adc, sub, sbc, rsb, cmp, cmn, mul or adr instruction writes its destination with the result modulo 2^32 (multiply: the low 32 bits; adr: the word-aligned PC+4 plus or minus the offset; a PC destination branches to the result with bit 0 cleared), and, for the flag-setting forms outside an IT block and for compares always, sets N and Z from the result and, except for multiply, C as the unsigned carry-out (not-borrow) and V as the signed overflow. Forms that do not set flags leave all of them unchanged, and the PC advances by the instruction size.",
  ["inputs", "programs"], "all encodings of the group, all register values, flag states, addresses and IT-block states",
  "Tests use a handful of operand pairs; carry and overflow have to be right for all 2^64 pairs and both carry-ins, at the boundaries in particular.",
  [INS, HLP, BIT], [("AddSub, ReverseSubtract, Compare, Multiply, AddressToRegister evaluation", INS), ("AddWithCarry", HLP)], ["Instruction.execute() on a CpuModel"])
p("C06", "Logical, shift, move and test instructions give exact results and flags",
  "Executing any decoded and, eor, orr, bic, mvn, mov, movw, tst, lsl, lsr, asr or ror instruction yields the exact 32-bit result for every shift amount from 0 to 255 (including 0, 32 and above, and rotate-with-extend), and its flag-setting form sets N and Z from the result and C to the last bit shifted out (unchanged when nothing is shifted), leaving V alone. Modified-immediate constants expand exactly as the architecture says, a rotated one giving C its bit 31 in movs; a move to the PC branches to the value with bit 0 cleared and sets no flags.",
  ["inputs", "programs"], "all encodings of the group, all register values, shift amounts and flag states",
  "Each shift type has distinct edge behaviour at 0, 1, 31, 32, 33 and 255; tests cover a few amounts on a few values.",
  [INS, HLP, BIT], [("BitOp, BitClear, ShiftOp, Move, ShiftedMoveNegate, Test evaluation", INS), ("Shift_C, DecodeImmShift, ThumbExpandImm_C", HLP)], ["Instruction.execute() on a CpuModel"])
p("C07", "Extend and byte-reverse instructions select exactly the right bytes",
  "Executing any decoded sxtb, sxth, uxtb, uxth (with every rotation), rev, rev16 or revsh instruction writes the destination with the exact byte selection, permutation and sign or zero extension of the source register, for every source value and register pair, and changes no flags.",
  ["inputs"], "all encodings, rotations, registers (including destination = source) and 2^32 source values",
  "Tests use a few values; sign bits in the selected byte and in the others have to be told apart.",
  [INS, HLP], [("Extend, ByteReverse evaluation", INS)], ["Instruction.execute() on a CpuModel"])
p("C08", "Single loads and stores touch exactly the addressed bytes",
  "Executing any decoded single-register load or store accesses exactly the 1, 2 or 4 little-endian bytes at the base plus offset (immediate, register shifted left by 0 to 3, or word-aligned PC+4 plus or minus a literal offset; address arithmetic modulo 2^32): a load writes the target with the zero- or sign-extended value, a store writes the low bytes of the source and nothing else. No flag and no other register changes, and a word load into the PC continues at the loaded value.",
  ["inputs", "programs"], "all load/store encodings, all base/offset/data values including wrap-around, all memory contents",
  "Tests use aligned addresses in one small memory; byte lanes, sign, negative literal offsets and wrap-around are not crossed.",
  [INS, MOD], [("Load, Store, LoadLiteral evaluation", INS), ("CpuModel memory access", MOD)], ["memory and registers after Instruction.execute()"])
p("C09", "Push, pop, ldm and stm transfer exactly the listed registers",
  "Executing any decoded push, pop, ldm or stm instruction transfers exactly the listed registers, lowest number at the lowest address, in consecutive words, and changes no other memory or register; SP or base is updated by 4 times the count exactly when the form writes back (push downwards, and ldm only if its base is not in the list). A list that includes the PC on a pop or ldm continues at the loaded value, and a push followed by the pop of the same list restores registers and SP.",
  ["inputs", "programs"], "all register lists and bases, all register and memory values",
  "There are 2^8 and 2^15 register lists per form; tests use a few.",
  [INS, MOD], [("Push, Pop, LoadMultiple, StoreMultiple evaluation", INS)], ["memory and registers after Instruction.execute()"])
p("C10", "Branches are taken exactly when their condition holds, to the exact target",
  "A conditional branch is taken exactly when its condition holds for the current N, Z, C and V flags, and otherwise falls through to the next instruction; a taken branch continues at its address plus 4 plus the sign-extended offset, and bx and blx continue at the register's value (as it was before the instruction) with bit 0 cleared. bl and blx set LR to the address of the following instruction with bit 0 set; no branch changes anything else.",
  ["inputs", "programs"], "14 conditions x 16 flag states, all offsets of all forms (bl: 2^24), all registers and PC values",
  "Tests sample some conditions and offsets; J1/J2/sign handling of bl and blx lr need specific words.",
  [INS], [("Branch evaluation and condition table", INS)], ["PC, LR after Instruction.execute()"])
p("C11", "System instructions read and write exactly the architected special-register bits",
  "mrs delivers exactly the architected bits of the selected special register: flags (with the GE bits only if the DSP extension is present), 9-bit exception number, zero for execution-state bits, MSP, PSP, PRIMASK, BASEPRI, FAULTMASK (all zero when unprivileged), and 2 or, with floating point, 3 bits of CONTROL. When privileged, cpsie and cpsid clear and set exactly the named masks; hints, barriers, bkpt, svc and udf only advance the PC.",
  ["inputs", "configurations"], "all special register numbers and destinations, all special-register contents, privilege and extension configurations",
  "Execution of these instructions is not tested at all beyond a sample; the answer depends on register contents, privilege and CPU configuration together.",
  [INS, MOD], [("MoveFromSpecial, ChangeProcessorState evaluation", INS), ("special register properties", MOD)], ["registers after Instruction.execute()"])
p("C12", "Executing an instruction changes nothing but its architected effects",
  "Executing any decoded instruction in any state completes without an exception and leaves every core and special register, every status bit and every memory byte that is not a destination of that instruction exactly as it was.",
  ["inputs", "programs"], "all instructions, all states (all registers, special registers, flags, memory)",
  "Tests check the destination they expect; unintended writes elsewhere (another flag, register, stack word) are not looked at.",
  [INS, MOD], [("evaluation functions write only their destinations", INS)], ["full register and memory comparison around Instruction.execute()"])
p("C13", "Decoding and execution are repeatable: no state leaks between uses",
  "A decoded instruction is a value: executing it or formatting it, any number of times, in any order, interleaved with other decodes and executions on the same or another CPU model, always has the same effect on equal CPU states and gives the same text, and decoding the same bytes again gives an equal instruction. Formatting changes no CPU state.",
  ["histories"], "all interleavings of decode, format and execute of any set of instructions on any CPUs",
  "Tests decode, run once and throw away; shared mutable constants or cached fields only show on reuse after particular other operations.",
  [DEC, INS, BIT, FMT], [("fresh instruction per decode", DEC), ("operands kept as values", INS)], ["execute/format on reused instruction objects"])
p("C14", "Bitstring arithmetic and logic is exact modulo two to the width",
  "For bitstrings of any width and any integer, bit-text or bitstring operand, +, -, *, //, <<, >>, ~, & (and their in-place and reflected forms) give the mathematical result on the unsigned value reduced modulo 2^width of the left bitstring (a reflected integer counts as 32, or from 2^32 up 64, bits wide), while | and ^ of two bitstrings take the larger width; the value is always within the width. The signed and unsigned readings are the two's-complement and plain values. An operand of any other kind is rejected with a TypeError instead of being ignored.",
  ["inputs"], "all widths (0 to beyond 64), all values, all operand kinds including negative and over-wide integers",
  "Tests use a few 8- and 32-bit values; carries past the width, negative operands and unequal widths are open.",
  [BIT], [("arithmetic operators and masking", BIT)], ["bitstring operators"])
p("C15", "Bitstring operations never modify or share their operands",
  "Over any history of bitstring operations, an operation that returns a value (construction, copy, slicing, indexing, operators, extension, inversion, reading properties, comparison, conversion) leaves all existing bitstrings as they were and returns an object that no later operation on another object can change; an in-place operation changes exactly the one object it is applied to, also when that object is its own operand. An operation that raises an error changes nothing.",
  ["histories"], "all sequences of operations over any pool of bitstrings, with arbitrary sharing of operands",
  "Aliasing shows only when a result is mutated after a particular operation that happened to return its operand.",
  [BIT], [("copying in constructors and operators", BIT)], ["values of all live bitstrings after each operation"],
  )
p("C16", "Bitstring indexing, slicing and conversion follow bit positions",
  "Bit i of a bitstring is the coefficient of 2^i: indexing (also negative), slicing with any step, single-bit and slice assignment, iteration, concatenation (left operand most significant), zero and sign extension, reversal, bit counts and highest/lowest set bit all follow that numbering. Construction from and conversion to text, integers, bit lists and little-endian bytes are exact and mutually inverse, and assignment to a slice changes exactly the bits of the slice.",
  ["inputs"], "all widths, values, indices, slices and construction kinds",
  "Tests sample a few slices of short strings.",
  [BIT], [("item access, extension, conversion", BIT)], ["bitstring public methods"])
p("C17", "Bitstring comparisons are a consistent order, compatible with hashing",
  "Comparing bitstrings is a total order (by unsigned value, then by width) in which exactly one of <, == and > holds, <=, >= and != follow from these, equal bitstrings have equal hashes, and bit-text compares like the bitstring it spells. A non-negative integer is compared with the unsigned value and a negative one with the signed value; a bitstring is unequal to any other kind of object and ordering it against one is a type error.",
  ["inputs"], "all pairs and triples of bitstrings of any widths, integers, texts and other objects",
  "Transitivity, trichotomy and hash consistency quantify over pairs and triples; tests compare a few.",
  [BIT], [("comparison operators and hash", BIT)], ["comparison operators"])
p("C18", "The pseudo-code primitives are exact at every width and amount",
  "Align, AddWithCarry, the five shift primitives with and without carry-out, immediate-shift decoding and modified-immediate expansion return, for operands of every width and every shift amount or constant, exactly the value and carry (and overflow) that the architecture's pseudo-code defines. They leave their operands unchanged.",
  ["inputs"], "all widths, values, amounts (0 to beyond the width), carry-ins and all 4096 modified immediates",
  "Instruction tests reach them only at 32 bits with a few values.",
  [HLP, BIT], [("helper functions", HLP)], ["public helper functions"])
p("C19", "The mock memory is a byte-addressable little-endian store of its regions",
  "After any history of region creations and byte, halfword, word and block writes, every read returns the bytes last written to those addresses of the region holding the first address (zero if never written), little-endian; bytes outside any region, or past the end of the region where the access starts, read as zero (and end a block read) and ignore writes. No access changes a region's extent or any byte it does not address, and blocks read or written are copies: changing them later changes no memory.",
  ["histories"], "all sequences of region creation, reads and writes of every size at every address and alignment, inside, at the edges of and outside regions",
  "Tests write and read back single aligned words; overlap of sizes, region ends and accumulated histories are open.",
  [MOCK, UTL], [("region lookup and slicing", MOCK)], ["MockCpuModelDelegate and CpuModel memory calls"],
  [("regions", "list of start, end, bytes", MOCK)])
p("C20", "The mock register file keeps SP banking and register-width invariants",
  "After any history of register writes, reading a register returns the value last written to it, with SP, MSP and PSP word-aligned, PRIMASK and FAULTMASK 1 bit and BASEPRI 8 bits wide; SP always equals the stack pointer (MSP or PSP) that CONTROL selects, whichever of SP, MSP, PSP or CONTROL was written, and the other one keeps its value. Initially all registers are 0 and xPSR has just the T bit.",
  ["histories"], "all sequences of writes to all registers",
  "The banking invariant depends on the order of writes to four registers; tests write one register at a time.",
  [MOCK, REG], [("write_register restrictions and mirroring", MOCK)], ["register reads"],
  [("register bank", "register number to value", MOCK)])
p("C21", "The CPU model presents one consistent 32-bit view of the delegate's registers",
  "All ways to name a register (name in any case, alias, number, indexed core or float register, the named attributes and the flag attributes) read and write the same register of the delegate and no other; values read are 32-bit bitstrings, values written (integer or bitstring) arrive as integers modulo 2^32, and setting a flag changes only that bit of xPSR. Memory reads of 8, 16 and 32 bits have exactly that width and reach the delegate with the given address and size, as do writes and blocks. An index outside a register bank is a KeyError and touches no register; without a delegate reads give nothing and writes do nothing.",
  ["histories", "inputs"], "all accessors, all registers and values, any delegate, all sequences of accesses",
  "Tests use a few names with small values.",
  [MOD, REG], [("register name table", REG), ("CpuModel accessors", MOD)], ["calls seen by a recording delegate and values returned"])
p("C22", "Disassembly tiles its input: each instruction starts where the last one ended",
  "Disassembling any byte sequence at any start address yields exactly the instructions obtained by decoding at address, address+size, and so on, each with its own address and bytes, so that the concatenated bytes are a prefix of the input. It stops silently at the end or where fewer than four bytes remain that do not decode, raises the undefined error (after the preceding instructions) where four or more remain, and does not depend on how or whether the results are consumed.",
  ["inputs"], "all byte sequences of any length and any start address",
  "Tests disassemble no streams with mixed sizes, truncated tails and undefined words in every position.",
  [DIS, DEC], [("disasm generator", DIS)], ["Disassembler.disasm()"])
p("C23", "Formatted text is the exact assembly of the instruction's encoding",
  "The text of every decodable instruction consists of its halfwords in hex, its mnemonic and its operands in order, in fixed columns, with the exact register names, register-list ranges, immediates, shifts, memory operands, special register names, barrier options and cps flags that its encoding denotes, followed by the hexadecimal values of larger immediates and labels as a comment. It depends on nothing but the instruction's bytes and address.",
  ["inputs"], "all decodable words at all addresses",
  "Formatting is almost untested; every operand field of every encoding has its own text.",
  [FMT, INS], [("operand formatting", FMT), ("operand lists built by decode handlers", INS)], ["Formatter.format()"])
p("C24", "A printed label is the address the instruction goes to or computes",
  "For every branch or adr instruction at any address (wrapping at 2^32), the label comment shown by the disassembly is the address at which execution continues when the branch is taken, or the value adr puts into its register, and the relative label is that address minus the instruction's address.",
  ["inputs"], "all label-carrying encodings at all addresses (aligned and halfword-aligned, near 0 and 2^32)",
  "It relates two independent computations (text and execution) over all offsets and addresses; no test compares them.",
  [FMT, INS], [("label operand", FMT), ("branch and adr evaluation", INS)], ["Formatter.format() and Instruction.execute()"])
p("C25", "Running a program equals the architecture's sequential semantics, step by step",
  "For any program in mock memory and any initial state, repeatedly fetching at the PC, decoding and executing gives the same sequence of PCs, registers and memory contents as the architecture's sequential semantics, including stack use, calls and returns, loops, self-modified code and stops at the same undefined or unpredictable instruction. Executing a sequence of decoded instructions on the CPU model has the effect of executing them in that order.",
  ["programs", "histories"], "all programs and initial states, all run lengths",
  "Tests execute single instructions; effects that build up over a run (flags feeding branches, SP banking, calls) are not followed.",
  [INS, MOD, MOCK, DEC], [("fetch/decode/execute over the mock delegate", INS)], ["full state after every step"])
p("C26", "Console register and memory commands act on the CPU exactly as typed",
  "In any session, wreg, reg, register names, the read and write commands in 8, 16 and 32 bits, and dereferencing arguments read and change exactly the registers and little-endian memory bytes they name and print the current values, with numbers in any base, register names and [address,offset] as arguments, several commands on a line in order, an empty line repeating the last line, and a command beginning with $ evaluating a Python expression over the CPU and printing its value. A command that is rejected (unknown command, register, malformed number or failing expression) changes nothing and the session goes on; exit ends it with status 0.",
  ["histories"], "all sequences of console lines",
  "The console has no tests; what a command does depends on everything typed before it.",
  [CLI, MOCK, UTL], [("command handlers", CLI)], ["console output and CPU state"])
p("C27", "Console start, reset, step and disassembly agree with the CPU model",
  "The console loads the binary at address 0, takes SP and PC from its first two words when they point into simulated memory (RAM begins at 0x1fff8000 and reaches at least the initial stack pointer), and reset repeats that from current memory; step prints and executes exactly the one instruction at the PC, and disasm prints exactly the instructions of the addressed bytes, marking the one at the PC. Undefined instructions are reported and leave the state unchanged.",
  ["histories", "inputs"], "all binaries and sequences of reset, step, disasm and state-changing commands",
  "The console has no tests; stepping over code whose next word is bad, at region ends or with an odd PC needs specific histories.",
  [CLI, DIS, MOCK], [("create_sim, reset_sim, handle_step, handle_disasm", CLI)], ["console output and CPU state"])
p("C28", "Byte, halfword, word, float and bitfield conversions are exact inverses",
  "The conversion utilities between byte, halfword and word lists and single little-endian values are exact and mutually inverse, with offsets honoured and bytes that do not fill a last word left out; float conversion round-trips every 32-bit pattern of a number; bit counting, masks, field extraction and field insertion select exactly the named bits, inserting then extracting returns the inserted field, and insertion changes no other bit.",
  ["inputs"], "all values, list lengths, offsets and field positions (including lsb 0 and single bits)",
  "Utilities have few tests; field position 0 and insertion over set bits are typical gaps.",
  [UTL], [("utility functions", UTL)], ["public utility functions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
