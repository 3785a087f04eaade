From c84ea1ffd36cfe8c481ed5cea518dd7f1575335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 01/43] fix: reading bitstring.signed no longer inverts the
 bitstring in place

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index ec8b7f9..7d12d49 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -77,7 +77,7 @@ class bitstring(object):
         w1 = self._width - 1
         s = (self._value >> w1) & 1
         if s:
-            v = -(self.invert().value & ((1 << w1) - 1)) - 1
+            v = -(self.inverted.value & ((1 << w1) - 1)) - 1
         else:
             v = self._value & ((1 << w1) - 1)
         return v
-- 
2.43.0


From cba745772b99ac3938ebb28a6cf84369a29d613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 02/43] fix: the ~ operator on a bitstring no longer modifies
 its operand

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 7d12d49..d790986 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -510,7 +510,7 @@ class bitstring(object):
         return self
 
     def __invert__(self):
-        return self.invert()
+        return self.inverted
 
     def __hex__(self):
         return "%d'h%0*x" % (self._width, (self._width + 3) // 4, self._value)
-- 
2.43.0


From 27f5b09d7e21c34181f588c10832b220738a5153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 03/43] fix: truth value of a bitstring on Python 3 is its
 value, not its width

---
 cmdis/bitstring.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index d790986..167fbf2 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -185,9 +185,11 @@ class bitstring(object):
     def __ge__(self, other):
         return not self.__lt__(other)
 
-    def __nonzero__(self):
+    def __bool__(self):
         return self._value != 0
 
+    __nonzero__ = __bool__
+
     def __len__(self):
         return self._width
 
-- 
2.43.0


From 94111857dda9653868c8b9574fa6a711a0da733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 04/43] fix: words without a decoder raise
 UndefinedInstructionError rather than AttributeError

---
 cmdis/decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index e8c9a0b..e2973e6 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -168,8 +168,8 @@ class DecoderTree(object):
             return DecoderTreeNode(mask=0, children=list(children.values())[0])
 
         # Recursively process each group of children with the same match value at this level.
-        for k, subdecoders in children.items():
-            children[k] = self._build_tree(subdecoders)
+        # The node holds a plain dict, so that looking up an unknown value raises KeyError.
+        children = {k: self._build_tree(subdecoders) for k, subdecoders in children.items()}
 
         return DecoderTreeNode(mask=commonMask, children=children)
 
-- 
2.43.0


From a79f0e78bd74820dda43173c7da35473a0bc6010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 05/43] fix: decoding push.w with a register list no longer
 raises NameError

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 2c6a65f..2189201 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -795,7 +795,7 @@ def push_t1(i, M, reglist):
 
 @instr("push.w", Push, "11101 00 100 1 0 1101", "0 M 0 reglist(13)")
 def push_t2(i, M, reglist):
-    i.registers = bit0 % M % bit0 % reglsit
+    i.registers = bit0 % M % bit0 % reglist
     i.unaligned_allowed = False
     if i.registers.bit_count() == 0:
         raise UnpredictableError()
-- 
2.43.0


From 31473ad9dff6c554feedd18735e2bc410b47a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 06/43] fix: executing mvn.w no longer raises NameError

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 2189201..e1272eb 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -426,7 +426,7 @@ def mvn(i, Rm, Rd):
 
 class ShiftedMoveNegate(DataProcessing):
     def _eval(self, cpu):
-        shifted, carry = Shift_C(cpu.r[i.m], i.shift_t, i.shift_n, cpu.apsr.c)
+        shifted, carry = Shift_C(cpu.r[self.m], self.shift_t, self.shift_n, cpu.apsr.c)
         result = ~shifted
         cpu.r[self.d] = result
         self._set_flags(cpu, result, carry, None)
-- 
2.43.0


From ee346e6cd3262e49288ab07e1631bc1ffe75e2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 07/43] fix: register forms of cmp and cmn compare against Rm

---
 cmdis/instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index e1272eb..c805948 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -477,14 +477,14 @@ def cmp1(i, Rn, imm8):
 @instr("cmn", Compare, "010000 1011 Rm(3) Rn(3)", negate=False)
 def cmp3(i, Rm, Rn):
     i.n = Rn.unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
 @instr("cmp", Compare, "010001 01 N Rm(4) Rn(3)")
 def cmp4(i, N, Rm, Rn):
     i.n = (N % Rn).unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
-- 
2.43.0


From ac1dda7d7762c535ce7dc76cc5d66c645ac5e020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:54 +0000
Subject: [PATCH 08/43] fix: mrs reads the xPSR flags and the whole exception
 number

---
 cmdis/instructions.py | 4 ++--
 cmdis/model.py        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index c805948..2d50577 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -938,9 +938,9 @@ class MoveFromSpecial(Instruction):
                 r[24:27] = '000' # EPSR reads as zero
                 r[10:16] = '000000'
             if self.SYSm[2] == '0':
-                r[27:32] = cpu.apsr[27:32]
+                r[27:32] = cpu.xpsr[27:32]
                 if cpu.has_dsp_ext:
-                    r[16:20] = cpu.apsr[16:20]
+                    r[16:20] = cpu.xpsr[16:20]
         elif self.SYSm[3:8] == '00001': # SP access
             if cpu.is_privileged:
                 if self.SYSm[0:3] == '000':
diff --git a/cmdis/model.py b/cmdis/model.py
index d83504b..bab1a17 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -212,7 +212,7 @@ class CpuModel(object):
 
     @property
     def ipsr(self):
-        return self.xpsr[0:6]
+        return self.xpsr[0:9]
 
     @property
     def r(self):
-- 
2.43.0


From 98ef10023f5fcfd68b44d9b632dbe97d78d22449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:54 +0000
Subject: [PATCH 09/43] fix: reading a register through the register interface
 adds the first index only once

---
 cmdis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index bab1a17..12fae1e 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -31,9 +31,9 @@ class RegistersInterface(object):
 
     def __getitem__(self, key):
         index = self._first + key
-        if self._first + index > self._last:
+        if index > self._last:
             raise KeyError("out of range register index %d" % key)
-        return self._cpu.read_register(self._first + index)
+        return self._cpu.read_register(index)
 
     def __setitem__(self, key, value):
         index = self._first + key
-- 
2.43.0


From ae71f4eab4ede51b73db03902f6d2338bb9cbb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:54 +0000
Subject: [PATCH 10/43] fix: blx lr branches to the old value of lr

---
 cmdis/instructions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 2d50577..2c473e5 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -559,17 +559,17 @@ class Branch(Instruction):
         # TODO deal with pc + 4
         if self.cond.expr(cpu.apsr):
             next_instr = cpu.pc_for_instr + self.pc_delta
-            if self.with_link:
-                cpu.lr = next_instr | 1
-
             if hasattr(self, 'm'):
                 # Branch to register
                 target = bitstring(cpu.r[self.m])
                 target[0] = 0 # clear T bit
-                cpu.pc = target
             else:
                 # Branch to immediate offset
-                cpu.pc = next_instr + self.imm32
+                target = next_instr + self.imm32
+
+            if self.with_link:
+                cpu.lr = next_instr | 1
+            cpu.pc = target
         else:
             cpu.pc += self.size
 
-- 
2.43.0


From 2f972f46fbf80803c12f201654160cf297cbd53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:54 +0000
Subject: [PATCH 11/43] fix: mov and add to the pc, and ldr.w to the pc, branch
 rather than skip an instruction further

---
 cmdis/instructions.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 2c473e5..7a4b0fc 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -73,9 +73,12 @@ class AddSub(DataProcessing):
             result, carry, overflow = AddWithCarry(cpu.r[self.n],
                 self.imm32 if hasattr(self, 'imm32') else cpu.r[self.m],
                 cpu.apsr.c if self.use_carry else bit0)
-        cpu.r[self.d] = result
-        self._set_flags(cpu, result, carry, overflow)
-        super(AddSub, self)._eval(cpu)
+        if self.d == 15: # pc
+            cpu.pc = result & ~1
+        else:
+            cpu.r[self.d] = result
+            self._set_flags(cpu, result, carry, overflow)
+            super(AddSub, self)._eval(cpu)
 
 class BitOp(DataProcessing):
     def _eval(self, cpu):
@@ -366,9 +369,12 @@ class Move(DataProcessing):
             result = self.imm32
         if self.negate:
             result = ~result
-        cpu.r[self.d] = result
-        self._set_flags(cpu, result, cpu.apsr.c, None)
-        cpu.pc += self.size
+        if self.d == 15: # pc
+            cpu.pc = result & ~1
+        else:
+            cpu.r[self.d] = result
+            self._set_flags(cpu, result, cpu.apsr.c, None)
+            cpu.pc += self.size
 
 @instr("mov", Move, "010001 10 D Rm(4) Rd(3)")
 def mov0(i, D, Rm, Rd):
@@ -631,7 +637,8 @@ class Load(Instruction):
         else:
             data = data.zero_extend(32)
         cpu.r[self.t] = data
-        cpu.pc += self.size
+        if self.t != 15: # pc
+            cpu.pc += self.size
 
 class Store(Instruction):
     def __init__(self, mnemonic, word, is32bit):
-- 
2.43.0


From 6fc2f8af993e013070352c9d435ea80e3b210844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:54 +0000
Subject: [PATCH 12/43] fix: the mock cpu selects the SP bank by the value of
 CONTROL

---
 cmdis/mock_cpu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 6f48260..8215cc3 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -48,7 +48,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         self._regs[reg] = value
 
         # Mirror SP writes to PSP/MSP and vice versa.
-        spsel = (CORE_REGISTER['control'] & 2) >> 1
+        spsel = (self._regs[CORE_REGISTER['control']] & 2) >> 1
         if reg == CORE_REGISTER['sp']:
             if spsel:
                 self._regs[CORE_REGISTER['psp']] = value
@@ -57,6 +57,8 @@ class MockCpuModelDelegate(CpuModelDelegate):
         elif (reg == CORE_REGISTER['msp'] and spsel == 0) or \
                 (reg == CORE_REGISTER['psp'] and spsel == 1):
             self._regs[CORE_REGISTER['sp']] = value
+        elif reg == CORE_REGISTER['control']:
+            self._regs[CORE_REGISTER['sp']] = self._regs[CORE_REGISTER['psp' if spsel else 'msp']]
 
     def _find_mem(self, addr):
         for m in self._mem:
-- 
2.43.0


From 787cbe5256513a0aadecbcb496aedee158a15d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:54 +0000
Subject: [PATCH 13/43] fix: mock cpu memory accesses stay within a memory
 region

---
 cmdis/mock_cpu.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 8215cc3..83d07b7 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -69,27 +69,29 @@ class MockCpuModelDelegate(CpuModelDelegate):
     def read_memory(self, addr, size=32):
         mem, offset = self._find_mem(addr)
         if mem:
+            # Bytes past the end of the region read as 0.
+            data = mem.data[offset:offset+4] + bytearray(4)
             if size == 8:
-                return mem.data[offset:offset+1]
+                return data[0]
             elif size == 16:
-                return bytes_to_le16(mem.data[offset:offset+2])
+                return bytes_to_le16(data)
             elif size == 32:
-                return bytes_to_le32(mem.data[offset:offset+4])
+                return bytes_to_le32(data)
         return 0
 
     def write_memory(self, addr, value, size=32):
-        mem, offset = self._find_mem(addr)
-        if mem:
-            if size == 8:
-                mem.data[offset:offset+1] = [value]
-            elif size == 16:
-                mem.data[offset:offset+2] = le16_to_bytes(value)
-            elif size == 32:
-                mem.data[offset:offset+4] = le32_to_bytes(value)
+        if size == 8:
+            self.write_memory_block(addr, le16_to_bytes(value)[0:1])
+        elif size == 16:
+            self.write_memory_block(addr, le16_to_bytes(value))
+        elif size == 32:
+            self.write_memory_block(addr, le32_to_bytes(value))
 
     def write_memory_block(self, addr, data):
         mem, offset = self._find_mem(addr)
         if mem:
+            # Bytes past the end of the region are dropped.
+            data = data[0:len(mem.data)-offset]
             mem.data[offset:offset+len(data)] = data
 
     def read_memory_block(self, addr, length):
-- 
2.43.0


From 411cb0af063a525f3db597b261dbd0d8a2c5ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:54 +0000
Subject: [PATCH 14/43] fix: the label of adr is the address that the
 instruction computes

---
 cmdis/formatter.py    | 13 +++++++++----
 cmdis/instructions.py |  5 +++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index b509696..ff81d7a 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -16,7 +16,7 @@
 
 from .utilities import bytes_to_le16
 from .registers import CORE_REGISTER_NAMES
-from .helpers import SRType
+from .helpers import (SRType, Align)
 
 class Operand(object):
     def format(self, formatter):
@@ -80,15 +80,20 @@ class ImmediateOperand(Operand):
         return "#%d" % self._imm
 
 class LabelOperand(Operand):
-    def __init__(self, offset):
+    def __init__(self, offset, align=1):
         self._offset = offset
+        self._align = align
 
     def format(self, formatter):
+        # The offset is relative to the (possibly aligned) PC.
+        address = formatter.instruction.address
+        delta = Align(address + 4, self._align) + self._offset - address
+
         # Add a comment with the absolute address of the label.
-        comment = "0x%x" % (formatter.instruction.address + 4 + self._offset)
+        comment = "0x%x" % ((address + delta) & 0xffffffff)
         formatter.add_comment(comment)
 
-        return ".%+d" % (self._offset + 4)
+        return ".%+d" % delta
 
 class ShiftRotateOperand(Operand):
     OP_NAMES = ["None",
diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 7a4b0fc..a2e2c5b 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -270,14 +270,15 @@ def adr_t1(i, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (imm8 % '00').zero_extend(32)
     i.add = True
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned, align=4)]
 
 @instr("adr.w", AddressToRegister, "11110 im 10101 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=False)
 @instr("adr.w", AddressToRegister, "11110 im 10000 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=True)
 def adr_t2(i, im, imm3, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (im % imm3 % imm8).zero_extend(32)
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    i.operands = [RegisterOperand(i.d), LabelOperand(
+        i.imm32.unsigned if i.add else -i.imm32.unsigned, align=4)]
 
 # ------------------------------ Sign/unsigned extend instructions ------------------------------
 
-- 
2.43.0


From fc3765d3863b66f03799c1e9b3e1217c2057ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:54 +0000
Subject: [PATCH 15/43] fix: msr shows the _nzcvqg mask of a special register

---
 cmdis/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index ff81d7a..4c02152 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -153,7 +153,7 @@ class CpsOperand(Operand):
         return result
 
 class SpecialRegisterOperand(Operand):
-    def __init__(self, spec, mask=-1):
+    def __init__(self, spec, mask=None):
         self._spec = spec
         self._mask = mask
 
@@ -176,7 +176,7 @@ class SpecialRegisterOperand(Operand):
                 result = "EPSR"
             elif lower == '111':
                 result = "IEPSR"
-            if lower < 4 and self._mask != -1:
+            if lower < 4 and self._mask is not None:
                 if self._mask == '10':
                     result += '_nzcvq'
                 elif self._mask == '01':
-- 
2.43.0


From 1cdf303c8c1a86eb5acd771eded9c3694e7ae0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:54 +0000
Subject: [PATCH 16/43] fix: bfx and bfi accept a bitfield whose lsb is 0

---
 cmdis/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index 941a8eb..de6c8cc 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -139,13 +139,13 @@ def invert32(value):
 
 ## @brief Extract a value from a bitfield.
 def bfx(value, msb, lsb=None):
-    lsb = lsb or msb
+    lsb = msb if lsb is None else lsb
     mask = bitmask((msb, lsb))
     return (value & mask) >> lsb
 
 ## @brief Change a bitfield value.
 def bfi(value, field, msb, lsb=None):
-    lsb = lsb or msb
+    lsb = msb if lsb is None else lsb
     mask = bitmask((msb, lsb))
     value &= ~mask
     value |= (field << lsb) & mask
-- 
2.43.0


From 57d113679273a3f30edbdc4fbc2e7839f4d40fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:54 +0000
Subject: [PATCH 17/43] fix: byteListToU32leList works on Python 3

---
 cmdis/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index de6c8cc..66df0ad 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -49,7 +49,7 @@ def le32_to_bytes(value, offset=0):
 def byteListToU32leList(data):
     """Convert a list of bytes to a list of 32-bit integers (little endian)"""
     res = []
-    for i in range(len(data) / 4):
+    for i in range(len(data) // 4):
         res.append(data[i * 4 + 0] |
                    data[i * 4 + 1] << 8 |
                    data[i * 4 + 2] << 16 |
-- 
2.43.0


From 851882a0d55b80d793744a9568cef01d9789a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:54 +0000
Subject: [PATCH 18/43] fix: import struct for the float conversions

---
 cmdis/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index 66df0ad..63fadd2 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -14,6 +14,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import struct
+
 ## @brief Compute the hamming weight, or number of 1s, of the argument.
 def hamming_weight(v):
     weight = 0
-- 
2.43.0


From dff919c3329f0fdc01037ac013924209d7826bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 19/43] fix: a bitstring made from a bytearray is little endian
 bytes on Python 3, not a list of bits

---
 cmdis/bitstring.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 167fbf2..b98ffc6 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -39,17 +39,17 @@ class bitstring(object):
             # String.
             self._width = len(val)
             self._value = int(val, base=2)
-        elif isinstance(val, collections.Sequence):
-            # Iterable.
-            # TODO support iterables of '0','1' as well as ints
-            self._width = len(val)
-            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
         elif isinstance(val, bytearray):
             # Little endian byte array.
             self._width = len(val) * 8
             self._value = 0
             for i,b in enumerate(val):
                 self._value |= b << (i * 8)
+        elif isinstance(val, collections.Sequence):
+            # Iterable.
+            # TODO support iterables of '0','1' as well as ints
+            self._width = len(val)
+            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
         else:
             raise TypeError("value type is not supported")
 
-- 
2.43.0


From 0e74e64c402c17ea6acc231bdb0a578a18a5a065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 20/43] fix: a bitstring made from 1<<32 keeps its value

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index b98ffc6..0464a7a 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -33,7 +33,7 @@ class bitstring(object):
             self._value = val._value
         elif isinstance(val, six.integer_types):
             # Integer.
-            self._width = 64 if (val > (1 << 32)) else 32
+            self._width = 64 if (val >= (1 << 32)) else 32
             self._value = val
         elif isinstance(val, six.string_types):
             # String.
-- 
2.43.0


From 549e3c257ac237238925ce8b25e5d0428283e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 21/43] fix: derived bitstring comparisons pass NotImplemented
 on

---
 cmdis/bitstring.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 0464a7a..b9e2f9f 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -160,7 +160,8 @@ class bitstring(object):
                 if isinstance(other, bitstring) else NotImplemented
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        result = self.__eq__(other)
+        return result if result is NotImplemented else not result
 
     def __lt__(self, other):
         if isinstance(other, six.integer_types):
@@ -177,13 +178,16 @@ class bitstring(object):
                 if isinstance(other, bitstring) else NotImplemented
 
     def __le__(self, other):
-        return self.__eq__(other) or self.__lt__(other)
+        result = self.__lt__(other)
+        return result if result is NotImplemented else (result or self.__eq__(other))
 
     def __gt__(self, other):
-        return not self.__le__(other)
+        result = self.__le__(other)
+        return result if result is NotImplemented else not result
 
     def __ge__(self, other):
-        return not self.__lt__(other)
+        result = self.__lt__(other)
+        return result if result is NotImplemented else not result
 
     def __bool__(self):
         return self._value != 0
-- 
2.43.0


From 61c2a6a4f0c79efb564d6f6972bfe1dfda619752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 22/43] fix: appending a bitstring to itself uses its original
 width

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index b9e2f9f..bf5ae16 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -480,9 +480,9 @@ class bitstring(object):
 
     def __imod__(self, other):
         if isinstance(other, bitstring):
+            self._value = (self._value << other._width) | other._value
             self._width += other._width
             self._mask = (1 << self._width) - 1
-            self._value = (self._value << other._width) | other._value
             return self
         elif isinstance(other, six.string_types):
             return self.__imod__(bitstring(other))
-- 
2.43.0


From b1ca1c582dc263d8ed66cb4fd9fe3ed7866c4e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 23/43] fix: extending a bitstring to its own width returns a
 copy, not an alias

---
 cmdis/bitstring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index bf5ae16..0d37b7b 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -312,7 +312,7 @@ class bitstring(object):
         if width < self._width:
             raise ValueError("new width is smaller than current")
         elif width == self._width:
-            return self
+            return bitstring(self)
         w1 = self._width - 1
         s = (self._value >> w1) & 1
         d = width - self._width
@@ -323,7 +323,7 @@ class bitstring(object):
         if width < self._width:
             raise ValueError("new width is smaller than current")
         elif width == self._width:
-            return self
+            return bitstring(self)
         return bitstring(self, width)
 
     def invert(self):
-- 
2.43.0


From 5fc790c7e4759179f39108dd1fb1eff4af073525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 24/43] fix: ASR by 0 returns its operand

---
 cmdis/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/helpers.py b/cmdis/helpers.py
index 30c1278..1809071 100644
--- a/cmdis/helpers.py
+++ b/cmdis/helpers.py
@@ -76,7 +76,7 @@ def ASR_C(x, shift):
 def ASR(x, shift):
     assert shift >= 0
     if shift == 0:
-        result = c
+        result = x
     else:
         result, _ = ASR_C(x, shift)
     return result
-- 
2.43.0


From 0bb58a315a61e3ad752c01eaf784441ada8619af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 25/43] fix: a trailing odd byte ends the disassembly

---
 cmdis/disasm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/disasm.py b/cmdis/disasm.py
index 84cb17e..adf7658 100644
--- a/cmdis/disasm.py
+++ b/cmdis/disasm.py
@@ -28,7 +28,7 @@ class Disassembler(object):
         length = len(data)
         endAddress = address + length
         offset = 0
-        while address < endAddress:
+        while endAddress - address >= 2:
             # Decode the next instruction.
             try:
                 i = decoder.decode(data[offset:], address)
-- 
2.43.0


From 1a0d750b863f97e74aa7aeae16aa61ab52c363f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 26/43] fix: movs.w with a rotated constant sets the carry flag

---
 cmdis/instructions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index a2e2c5b..48d3e18 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -374,7 +374,7 @@ class Move(DataProcessing):
             cpu.pc = result & ~1
         else:
             cpu.r[self.d] = result
-            self._set_flags(cpu, result, cpu.apsr.c, None)
+            self._set_flags(cpu, result, getattr(self, 'carry', None), None)
             cpu.pc += self.size
 
 @instr("mov", Move, "010001 10 D Rm(4) Rd(3)")
@@ -412,7 +412,9 @@ def mov2(i, im, S, imm3, Rd, imm8):
     i._mnemonic += "s.w" if S else ".w"
     i.d = Rd.unsigned
     i.setflags = (SetFlags.Never, SetFlags.Always)[S.unsigned]
-    i.imm32, i.carry = ThumbExpandImm_C(im % imm3 % imm8, bit0) # TODO deal with carry_in
+    i.imm32, carry = ThumbExpandImm_C(im % imm3 % imm8, bit0)
+    if im % imm3[2] != '00': # The carry is unchanged unless the constant is rotated.
+        i.carry = carry
     i.operands = [RegisterOperand(i.d), ImmediateOperand(i.imm32.unsigned)]
 
 # TODO test
-- 
2.43.0


From 677a5abc5b5b9bc2bf504fcc79b1a483dd061e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 27/43] fix: core registers are 32 bits wide

---
 cmdis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index 12fae1e..20a7f6b 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -232,7 +232,7 @@ class CpuModel(object):
         if isinstance(value, bitstring):
             value = value.unsigned
         if self._delegate is not None:
-            self._delegate.write_register(reg, value)
+            self._delegate.write_register(reg, value & 0xffffffff)
 
     def read_memory(self, addr, size=32):
         if isinstance(addr, bitstring):
-- 
2.43.0


From 8c511f415afffdd09068686daee4c8100683f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 28/43] fix: the console starts without a binary file

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 6007024..9be084c 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -358,7 +358,7 @@ class SimTool(object):
                 finally:
                     self.args.binary_file.close()
             else:
-                self.binary_data = ''
+                self.binary_data = b''
 
             # Set logging level
             self.configure_logging()
-- 
2.43.0


From 7556c77f1336d8253d779bbc5ef232ba25bca215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 29/43] fix: the console's reset command takes its arguments

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 9be084c..aa99572 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -411,7 +411,7 @@ class SimTool(object):
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-    def handle_reset(self, args, other):
+    def handle_reset(self, args):
         self.reset_sim()
 
     @cmdoptions([make_option('-c', "--center", action="store_true")])
-- 
2.43.0


From 30dbe75b77cca572bdd8de2c5aef82c19da86150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 30/43] fix: the console's write16 and write32 accept values
 above 255

---
 cmdis/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index aa99572..ed7ecc7 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -484,10 +484,10 @@ class SimTool(object):
             print "Error: no data for write"
             return 1
         else:
-            data = bytearray(self.convert_value(d) for d in args[1:])
+            data = [self.convert_value(d) for d in args[1:]]
 
         if width == 8:
-            pass
+            data = bytearray(data)
         elif width == 16:
             data = bytearray(cmdis.utilities.u16leListToByteList(data))
         elif width == 32:
-- 
2.43.0


From 72ffaa4780f1ed0f082e68704481f5ccb3b35fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 31/43] fix: an empty console line repeats the whole last line

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index ed7ecc7..aa77f5e 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -195,7 +195,7 @@ class SimConsole(object):
                         self.process_command_line(line)
                         self.last_command = line
                     elif self.last_command:
-                        self.process_command(self.last_command)
+                        self.process_command_line(self.last_command)
                 except KeyboardInterrupt:
                     print
         except EOFError:
-- 
2.43.0


From d5056245d2abcd43aa05e7b1055b24918c2aa307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 32/43] fix: the console's disasm command prints nothing rather
 than fail when nothing decodes

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index aa77f5e..1b9f2f1 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -623,7 +623,7 @@ class SimTool(object):
 #                 text += "{addr:#010x}:{pc_marker} {bytes:<10}{mnemonic:<8}{args}\n".format(addr=i.address, pc_marker=pc_marker, bytes=hexBytes, mnemonic=i.mnemonic, args=i.op_str)
         except cmdis.decoder.UndefinedInstructionError:
             print "Undefined instruction"
-        if text[-1] == '\n':
+        if text[-1:] == '\n':
             text = text[:-1]
         print text
 
-- 
2.43.0


From 6ff78676480fd7cb43531f8a587daf5b1343cf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 33/43] fix: the console's wreg command rejects an unknown
 register

---
 cmdis/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 1b9f2f1..f007799 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -408,6 +408,8 @@ class SimTool(object):
             raise ToolError("No value specified")
 
         reg = args[0].lower()
+        if reg not in cmdis.registers.CORE_REGISTER:
+            raise ToolError("invalid register '%s'" % (reg))
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-- 
2.43.0


From 6ed6685990e21e06727b41bca288c9928e30aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 34/43] fix: the console's hex dump of halfwords and words
 shows the address of each line

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index f007799..f288292 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -140,7 +140,7 @@ def hex_width(value, width):
 def dumpHexData(data, startAddress=0, width=8):
     i = 0
     while i < len(data):
-        print "%08x: " % (startAddress + i),
+        print "%08x: " % (startAddress + i * (width // 8)),
 
         while i < len(data):
             d = data[i]
-- 
2.43.0


From 85bdf73d9c2bdc4cae8f15069f7f9012c1e91579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 35/43] fix: the console's step command decodes only the
 instruction it executes

---
 cmdis/__main__.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index f288292..03dd439 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -505,15 +505,12 @@ class SimTool(object):
 
         try:
             code = self.cpu.read_memory_block(pc, 4)
-            ilist = [i for i in dis.disasm(code, pc)]
+            i = next(dis.disasm(code, pc), None)
 
-            if not len(ilist):
+            if i is None:
                 print "No instructions found!"
                 return
 
-            # Only use the first instruction.
-            i = ilist[0]
-
             print "{addr:#010x}:  {instr}".format(addr=i.address, instr=fmt.format(i))
 
             i.execute(self.cpu)
-- 
2.43.0


From 4eae3b3f2c55040a7bd51cee2224031dd6b9611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:01 +0000
Subject: [PATCH 36/43] fix: the signed value of a set one-bit bitstring is -1

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 0d37b7b..c1e1a20 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -71,7 +71,7 @@ class bitstring(object):
 
     @property
     def signed(self):
-        if self._width < 2:
+        if self._width < 1:
             return 0
 
         w1 = self._width - 1
-- 
2.43.0


From d39f1c1a2036916b49a6064dede0c0cbf1a876d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:01 +0000
Subject: [PATCH 37/43] fix: empty text and empty bit lists make empty
 bitstrings

---
 cmdis/bitstring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index c1e1a20..dc89f9a 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -38,7 +38,7 @@ class bitstring(object):
         elif isinstance(val, six.string_types):
             # String.
             self._width = len(val)
-            self._value = int(val, base=2)
+            self._value = int(val, base=2) if val else 0
         elif isinstance(val, bytearray):
             # Little endian byte array.
             self._width = len(val) * 8
@@ -49,7 +49,7 @@ class bitstring(object):
             # Iterable.
             # TODO support iterables of '0','1' as well as ints
             self._width = len(val)
-            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
+            self._value = functools.reduce(lambda x,y:(x << 1) | y, val, 0)
         else:
             raise TypeError("value type is not supported")
 
-- 
2.43.0


From e7b2b7f82b5dcf69a6378590b461b958f2def1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:10 +0000
Subject: [PATCH 38/43] fix: assigning a bitstring to a slice of itself keeps
 its bits

---
 cmdis/bitstring.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index dc89f9a..d0e003f 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -271,8 +271,7 @@ class bitstring(object):
             elif not isinstance(value, bitstring):
                 raise TypeError("value must be a bitstring, integer, or string")
             mask = (((1 << (stop - start)) - 1) << start)
-            self._value &= ~mask
-            self._value |= (value.unsigned << start) & mask
+            self._value = (self._value & ~mask) | ((value.unsigned << start) & mask)
             return
 
         if not isinstance(key, six.integer_types):
-- 
2.43.0


From 7eb46810f7521e43a960d736fefde455b95782cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:04 +0000
Subject: [PATCH 39/43] fix: encoding patterns do not swallow the character
 after a count or fixed bits

---
 cmdis/decoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index e2973e6..7517a72 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -358,7 +358,9 @@ def parse_spec(spec):
                 bitcount = ''
                 state = 0
             elif c not in string.digits:
+                # Switch to close bitcount state and back up.
                 state = 4
+                i -= 1
             else:
                 bitcount += c
         # Close bitcount state.
@@ -377,10 +379,12 @@ def parse_spec(spec):
             if c in ('0', '1'):
                 bits += c
             else:
+                # Switch to default state and back up.
                 result.append((ident, bitstring(bits)))
                 bits = ''
                 ident = ''
                 state = 0
+                i -= 1
 
         i += 1
 
-- 
2.43.0


From 155ebf652822386811fd45be68e36124c9b6c9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 40/43] fix: negative register indexes are out of range

---
 cmdis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index 20a7f6b..93154c1 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -31,13 +31,13 @@ class RegistersInterface(object):
 
     def __getitem__(self, key):
         index = self._first + key
-        if index > self._last:
+        if not self._first <= index <= self._last:
             raise KeyError("out of range register index %d" % key)
         return self._cpu.read_register(index)
 
     def __setitem__(self, key, value):
         index = self._first + key
-        if index > self._last:
+        if not self._first <= index <= self._last:
             raise KeyError("out of range register index %d" % key)
         self._cpu.write_register(index, value)
 
-- 
2.43.0


From 269724bb0fcd016a141040824a487dabc0bc25f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 41/43] fix: bitstring operators reject operands of unsupported
 types

---
 cmdis/bitstring.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index d0e003f..85df46f 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -331,28 +331,23 @@ class bitstring(object):
 
     def __add__(self, other):
         b = bitstring(self)
-        b.__iadd__(other)
-        return b
+        return b.__iadd__(other)
 
     def __sub__(self, other):
         b = bitstring(self)
-        b.__isub__(other)
-        return b
+        return b.__isub__(other)
 
     def __mul__(self, other):
         b = bitstring(self)
-        b.__imul__(other)
-        return b
+        return b.__imul__(other)
 
     def __floordiv__(self, other):
         b = bitstring(self)
-        b.__ifloordiv__(other)
-        return b
+        return b.__ifloordiv__(other)
 
     def __mod__(self, other):
         b = bitstring(self)
-        b.__imod__(other)
-        return b
+        return b.__imod__(other)
 
     def __lshift__(self, other):
         if isinstance(other, six.integer_types):
-- 
2.43.0


From 0e5f7bb5864ed8c1f54751908c6f5a07807db9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:25 +0000
Subject: [PATCH 42/43] fix: a decoder tree with inner nodes can be dumped

---
 cmdis/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index 7517a72..9684557 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -186,7 +186,7 @@ class DecoderTree(object):
                 for i,d in enumerate(nodes):
                     print("  " * (depth + 1), i, ":", d)
             else:
-                for i,k in enumerate(nodes.iterkeys()):
+                for i,k in enumerate(nodes):
                     print("  " * (depth + 1), i, ":", hex(k))
                     self.dump(nodes[k], depth+2)
 
-- 
2.43.0


From db886e92bf2574075284b4f795f82fd5922fb605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:59 +0000
Subject: [PATCH 43/43] fix: run console expressions whose '$' follows a space

process_command recognised a '$' command after stripping the text, but cut
the first character off the unstripped text, so ' $cpu.pc' (as in
'step; $cpu.pc') handed '$cpu.pc' to eval and failed.
---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 03dd439..f1a9a2a 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -211,7 +211,7 @@ class SimConsole(object):
     def process_command(self, cmd):
         try:
             if (cmd.strip())[0] == '$':
-                cmd = cmd[1:].strip()
+                cmd = cmd.strip()[1:].strip()
                 self.tool.handle_python(cmd)
                 return
 
-- 
2.43.0

