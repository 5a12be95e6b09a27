From 7ce263e85fa52efb336a32a56662f1bc9981f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:04 +0000
Subject: [PATCH 01/59] fix: reading bitstring.signed no longer inverts the
 bitstring in place

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index ec8b7f9..7d12d49 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -77,7 +77,7 @@ class bitstring(object):
         w1 = self._width - 1
         s = (self._value >> w1) & 1
         if s:
-            v = -(self.invert().value & ((1 << w1) - 1)) - 1
+            v = -(self.inverted.value & ((1 << w1) - 1)) - 1
         else:
             v = self._value & ((1 << w1) - 1)
         return v
-- 
2.43.0


From a95efafce90085ba67874e9ebe5cb491d9de18e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:04 +0000
Subject: [PATCH 02/59] fix: bitstring truth value is its value on Python 3
 too, not its width

---
 cmdis/bitstring.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 7d12d49..a297fdf 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -185,9 +185,11 @@ class bitstring(object):
     def __ge__(self, other):
         return not self.__lt__(other)
 
-    def __nonzero__(self):
+    def __bool__(self):
         return self._value != 0
 
+    __nonzero__ = __bool__
+
     def __len__(self):
         return self._width
 
-- 
2.43.0


From b1306ba39b5087bd6ddbd7fb7b6144d166f3eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:04 +0000
Subject: [PATCH 03/59] fix: ~bitstring returns a new bitstring instead of
 inverting its operand

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index a297fdf..167fbf2 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -512,7 +512,7 @@ class bitstring(object):
         return self
 
     def __invert__(self):
-        return self.invert()
+        return self.inverted
 
     def __hex__(self):
         return "%d'h%0*x" % (self._width, (self._width + 3) // 4, self._value)
-- 
2.43.0


From ff07e896bde8135877100a67ef9923b579a0ec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:04 +0000
Subject: [PATCH 04/59] fix: bitstring(1 << 32) defaults to 64 bits, keeping
 its value

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 167fbf2..d978a83 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -33,7 +33,7 @@ class bitstring(object):
             self._value = val._value
         elif isinstance(val, six.integer_types):
             # Integer.
-            self._width = 64 if (val > (1 << 32)) else 32
+            self._width = 64 if (val >= (1 << 32)) else 32
             self._value = val
         elif isinstance(val, six.string_types):
             # String.
-- 
2.43.0


From 0edc7ee7a155e1dc1386440e7239a96afaf3458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:04 +0000
Subject: [PATCH 05/59] fix: bitstring(bytearray) reads little-endian bytes on
 Python 3 instead of a list of bits

---
 cmdis/bitstring.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index d978a83..701d871 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -39,17 +39,17 @@ class bitstring(object):
             # String.
             self._width = len(val)
             self._value = int(val, base=2)
-        elif isinstance(val, collections.Sequence):
-            # Iterable.
-            # TODO support iterables of '0','1' as well as ints
-            self._width = len(val)
-            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
         elif isinstance(val, bytearray):
-            # Little endian byte array.
+            # Little endian byte array. Must be checked before Sequence, which includes bytearray.
             self._width = len(val) * 8
             self._value = 0
             for i,b in enumerate(val):
                 self._value |= b << (i * 8)
+        elif isinstance(val, collections.Sequence):
+            # Iterable.
+            # TODO support iterables of '0','1' as well as ints
+            self._width = len(val)
+            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
         else:
             raise TypeError("value type is not supported")
 
-- 
2.43.0


From ceed03263d0cda4c88e238290c1d2e34314f3f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:04 +0000
Subject: [PATCH 06/59] fix: bitstring arithmetic rejects unsupported operands
 instead of ignoring them

---
 cmdis/bitstring.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 701d871..87dce29 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -328,28 +328,23 @@ class bitstring(object):
 
     def __add__(self, other):
         b = bitstring(self)
-        b.__iadd__(other)
-        return b
+        return b.__iadd__(other)
 
     def __sub__(self, other):
         b = bitstring(self)
-        b.__isub__(other)
-        return b
+        return b.__isub__(other)
 
     def __mul__(self, other):
         b = bitstring(self)
-        b.__imul__(other)
-        return b
+        return b.__imul__(other)
 
     def __floordiv__(self, other):
         b = bitstring(self)
-        b.__ifloordiv__(other)
-        return b
+        return b.__ifloordiv__(other)
 
     def __mod__(self, other):
         b = bitstring(self)
-        b.__imod__(other)
-        return b
+        return b.__imod__(other)
 
     def __lshift__(self, other):
         if isinstance(other, six.integer_types):
-- 
2.43.0


From b3a7cb8769d3edc45c02da6f700837834e72e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:04 +0000
Subject: [PATCH 07/59] fix: bitstring != > >= no longer negate NotImplemented
 for foreign types

---
 cmdis/bitstring.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 87dce29..e0c3a84 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -160,7 +160,7 @@ class bitstring(object):
                 if isinstance(other, bitstring) else NotImplemented
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        return not (self == other)
 
     def __lt__(self, other):
         if isinstance(other, six.integer_types):
@@ -180,10 +180,10 @@ class bitstring(object):
         return self.__eq__(other) or self.__lt__(other)
 
     def __gt__(self, other):
-        return not self.__le__(other)
+        return not (self <= other)
 
     def __ge__(self, other):
-        return not self.__lt__(other)
+        return not (self < other)
 
     def __bool__(self):
         return self._value != 0
-- 
2.43.0


From 4b85b0481d09d99e9605978278b7673b107f0334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:04 +0000
Subject: [PATCH 08/59] fix: ASR by zero returns its operand instead of raising
 NameError

---
 cmdis/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/helpers.py b/cmdis/helpers.py
index 30c1278..1809071 100644
--- a/cmdis/helpers.py
+++ b/cmdis/helpers.py
@@ -76,7 +76,7 @@ def ASR_C(x, shift):
 def ASR(x, shift):
     assert shift >= 0
     if shift == 0:
-        result = c
+        result = x
     else:
         result, _ = ASR_C(x, shift)
     return result
-- 
2.43.0


From e719fa1e264b4dc3ad854712743ff443743b1c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:04 +0000
Subject: [PATCH 09/59] fix: decoding a single byte reports an undefined
 instruction instead of asserting

---
 cmdis/decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index e8c9a0b..1cf5936 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -112,7 +112,8 @@ class DecoderTree(object):
     def decode(self, data, dataAddress=0):
         # Figure out if this is a 16-bit or 32-bit instruction and select the
         # appropriate decoder tree.
-        assert len(data) >= 2
+        if len(data) < 2:
+            raise UndefinedInstructionError()
         hw1 = bytes_to_le16(data)
         is32bit = hw1 & self._32bitMask in self._32bitPrefixes
         if is32bit:
-- 
2.43.0


From 1a420b44cefe3f50eb129335bdacba6d46130540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:04 +0000
Subject: [PATCH 10/59] fix: DecoderTree.dump works on Python 3

---
 cmdis/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index 1cf5936..0278bb5 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -187,7 +187,7 @@ class DecoderTree(object):
                 for i,d in enumerate(nodes):
                     print("  " * (depth + 1), i, ":", d)
             else:
-                for i,k in enumerate(nodes.iterkeys()):
+                for i,k in enumerate(nodes):
                     print("  " * (depth + 1), i, ":", hex(k))
                     self.dump(nodes[k], depth+2)
 
-- 
2.43.0


From 22f2db4f8a67e05c8b579652c8f372072991a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:04 +0000
Subject: [PATCH 11/59] fix: parse_spec keeps the character that ends a fixed
 field value

---
 cmdis/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index 0278bb5..d89890f 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -378,10 +378,12 @@ def parse_spec(spec):
             if c in ('0', '1'):
                 bits += c
             else:
+                # Switch to default state and back up.
                 result.append((ident, bitstring(bits)))
                 bits = ''
                 ident = ''
                 state = 0
+                i -= 1
 
         i += 1
 
-- 
2.43.0


From 86334c2f30220fcbf52ae554706a408a568b1029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 12/59] fix: CpuModel.s reads S0-S31, and r/s reject negative
 indices

---
 cmdis/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index d83504b..83c3572 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -31,13 +31,13 @@ class RegistersInterface(object):
 
     def __getitem__(self, key):
         index = self._first + key
-        if self._first + index > self._last:
+        if not (self._first <= index <= self._last):
             raise KeyError("out of range register index %d" % key)
-        return self._cpu.read_register(self._first + index)
+        return self._cpu.read_register(index)
 
     def __setitem__(self, key, value):
         index = self._first + key
-        if index > self._last:
+        if not (self._first <= index <= self._last):
             raise KeyError("out of range register index %d" % key)
         self._cpu.write_register(index, value)
 
-- 
2.43.0


From 7adf509ee5ba3673dfefd40806bf83e653c6d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 13/59] fix: registers always read as 32-bit values

---
 cmdis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index 83c3572..ce58a11 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -225,7 +225,7 @@ class CpuModel(object):
     def read_register(self, reg):
         reg = register_name_to_index(reg)
         if self._delegate is not None:
-            return bitstring(self._delegate.read_register(reg))
+            return bitstring(self._delegate.read_register(reg), 32)
 
     def write_register(self, reg, value):
         reg = register_name_to_index(reg)
-- 
2.43.0


From e404535de643cbba9d33bec1983409ddb5f13603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 14/59] fix: IPSR is nine bits wide

---
 cmdis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index ce58a11..b7c218e 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -212,7 +212,7 @@ class CpuModel(object):
 
     @property
     def ipsr(self):
-        return self.xpsr[0:6]
+        return self.xpsr[0:9]
 
     @property
     def r(self):
-- 
2.43.0


From 9da1833f86e08b5802e6b3d33885066a674d2859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 15/59] fix: Handler mode is always privileged

---
 cmdis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index b7c218e..9871706 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -196,7 +196,7 @@ class CpuModel(object):
 
     @property
     def is_privileged(self):
-        return self.control[self.nPRIV] == '0'
+        return self._mode == CpuMode.Handler or self.control[self.nPRIV] == '0'
 
     @property
     def xpsr(self):
-- 
2.43.0


From 752cb58cfee9b40cfd2b2fde02cbfb970efb42a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 16/59] fix: mrs of the APSR reads xPSR bits instead of raising
 TypeError

---
 cmdis/instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 2c6a65f..fa31315 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -938,9 +938,9 @@ class MoveFromSpecial(Instruction):
                 r[24:27] = '000' # EPSR reads as zero
                 r[10:16] = '000000'
             if self.SYSm[2] == '0':
-                r[27:32] = cpu.apsr[27:32]
+                r[27:32] = cpu.xpsr[27:32]
                 if cpu.has_dsp_ext:
-                    r[16:20] = cpu.apsr[16:20]
+                    r[16:20] = cpu.xpsr[16:20]
         elif self.SYSm[3:8] == '00001': # SP access
             if cpu.is_privileged:
                 if self.SYSm[0:3] == '000':
-- 
2.43.0


From b21a16271680d52e7045fd4f93c6dcb14270ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 17/59] fix: cps has no effect when unprivileged

---
 cmdis/instructions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index fa31315..a8e25f5 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -898,8 +898,9 @@ def ldm_t2(i, W, Rn, P, M, reglist):
 
 class ChangeProcessorState(Instruction):
     def _eval(self, cpu):
-        # TODO if privileged
-        if self.enable:
+        if not cpu.is_privileged:
+            pass
+        elif self.enable:
             if self.affectPri:
                 cpu.write_register(CORE_REGISTER['primask'], 0)
             if self.affectFault:
-- 
2.43.0


From 1f5c06ce11db7a93b81e9c131d10db257a61f4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 18/59] fix: push.w with a register list decodes instead of
 raising NameError

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index a8e25f5..4dcf075 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -795,7 +795,7 @@ def push_t1(i, M, reglist):
 
 @instr("push.w", Push, "11101 00 100 1 0 1101", "0 M 0 reglist(13)")
 def push_t2(i, M, reglist):
-    i.registers = bit0 % M % bit0 % reglsit
+    i.registers = bit0 % M % bit0 % reglist
     i.unaligned_allowed = False
     if i.registers.bit_count() == 0:
         raise UnpredictableError()
-- 
2.43.0


From 1d4c3a5db6aa67d7e6c0dbf2732d20a94ae2c420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 19/59] fix: mvn.w executes instead of raising NameError

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 4dcf075..85e8317 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -426,7 +426,7 @@ def mvn(i, Rm, Rd):
 
 class ShiftedMoveNegate(DataProcessing):
     def _eval(self, cpu):
-        shifted, carry = Shift_C(cpu.r[i.m], i.shift_t, i.shift_n, cpu.apsr.c)
+        shifted, carry = Shift_C(cpu.r[self.m], self.shift_t, self.shift_n, cpu.apsr.c)
         result = ~shifted
         cpu.r[self.d] = result
         self._set_flags(cpu, result, carry, None)
-- 
2.43.0


From 76aea5ad05aa5661a6902047365424bf5cd95aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 20/59] fix: register cmp and cmn compare with Rm instead of Rn

---
 cmdis/instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 85e8317..5f3c686 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -477,14 +477,14 @@ def cmp1(i, Rn, imm8):
 @instr("cmn", Compare, "010000 1011 Rm(3) Rn(3)", negate=False)
 def cmp3(i, Rm, Rn):
     i.n = Rn.unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
 @instr("cmp", Compare, "010001 01 N Rm(4) Rn(3)")
 def cmp4(i, N, Rm, Rn):
     i.n = (N % Rn).unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
-- 
2.43.0


From 8adacc146ed179bb18af1a4f4e9f3ff015719d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 21/59] fix: blx lr branches to the old LR, not to the return
 address

---
 cmdis/instructions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 5f3c686..b89a3cc 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -559,17 +559,17 @@ class Branch(Instruction):
         # TODO deal with pc + 4
         if self.cond.expr(cpu.apsr):
             next_instr = cpu.pc_for_instr + self.pc_delta
-            if self.with_link:
-                cpu.lr = next_instr | 1
-
             if hasattr(self, 'm'):
-                # Branch to register
+                # Branch to register. Read it before the link register is written.
                 target = bitstring(cpu.r[self.m])
                 target[0] = 0 # clear T bit
-                cpu.pc = target
             else:
                 # Branch to immediate offset
-                cpu.pc = next_instr + self.imm32
+                target = next_instr + self.imm32
+
+            if self.with_link:
+                cpu.lr = next_instr | 1
+            cpu.pc = target
         else:
             cpu.pc += self.size
 
-- 
2.43.0


From da176d3d3ae2d91a5b3800655d9338b1d66cacf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 22/59] fix: add and mov to the PC branch to the result

---
 cmdis/instructions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index b89a3cc..ec8fcfc 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -37,6 +37,7 @@ class DataProcessing(Instruction):
     def __init__(self, mnemonic, word, is32bit):
         super(DataProcessing, self).__init__(mnemonic, word, is32bit)
         self.setflags = SetFlags.Never
+        self.d = None
 
     def _set_flags(self, cpu, result, carry, overflow):
         if self.setflags == SetFlags.Always:
@@ -55,7 +56,11 @@ class DataProcessing(Instruction):
                 cpu.apsr.v = overflow
 
     def _eval(self, cpu):
-        cpu.pc += self.size
+        if self.d == 15:
+            # Writing the PC is a branch.
+            cpu.pc = Align(cpu.pc, 2)
+        else:
+            cpu.pc += self.size
 
 class AddSub(DataProcessing):
     def __init__(self, mnemonic, word, is32bit):
@@ -368,7 +373,7 @@ class Move(DataProcessing):
             result = ~result
         cpu.r[self.d] = result
         self._set_flags(cpu, result, cpu.apsr.c, None)
-        cpu.pc += self.size
+        super(Move, self)._eval(cpu)
 
 @instr("mov", Move, "010001 10 D Rm(4) Rd(3)")
 def mov0(i, D, Rm, Rd):
-- 
2.43.0


From de08c49c08ca16ad49f871a329b13a4b1929044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 23/59] fix: ldr.w to the PC branches to the loaded value

---
 cmdis/instructions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index ec8fcfc..88fb966 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -636,7 +636,8 @@ class Load(Instruction):
         else:
             data = data.zero_extend(32)
         cpu.r[self.t] = data
-        cpu.pc += self.size
+        if self.t != 15:
+            cpu.pc += self.size
 
 class Store(Instruction):
     def __init__(self, mnemonic, word, is32bit):
-- 
2.43.0


From 316127dd9c0cc17e4162da023318cdaa4fc1ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 24/59] fix: register-offset memory hints (pld, pli) no longer
 decode as loads to the PC

---
 cmdis/instructions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 88fb966..481f4a0 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -688,6 +688,8 @@ def ldr_str_reg_t2(i, Rn, Rt, imm2, Rm):
     i.m = Rm.unsigned
     if i.n == 15:
         raise DecodeError()
+    if i.t == 15 and i.memsize != 32:
+        raise DecodeError() # memory hints, such as PLD
     i.index = True
     i.add = True
     i.wback = False
-- 
2.43.0


From 036ce527337689fc0adde4e410a6c1bb25eacb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 25/59] fix: ldr.w pc, [pc, #imm] decodes and branches to the
 loaded value

---
 cmdis/instructions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 481f4a0..6fc7ca8 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -732,7 +732,8 @@ class LoadLiteral(Load):
         else:
             data = data.zero_extend(32)
         cpu.r[self.t] = data
-        cpu.pc += self.size
+        if self.t != 15:
+            cpu.pc += self.size
 
 @instr("ldr", LoadLiteral, "01001 Rt(3) imm8(8)", memsize=32)
 def ldr_literal(i, Rt, imm8):
@@ -748,8 +749,8 @@ def ldr_literal(i, Rt, imm8):
 @instr("ldrsb.w", LoadLiteral, "11111 00 1 U 00 1 1111", "Rt(4) imm12(12)", memsize=8, signed=True)
 def ldr_literal(i, U, Rt, imm12):
     i.t = Rt.unsigned
-    if i.t == 15:
-        raise DecodeError()
+    if i.t == 15 and i.memsize != 32:
+        raise DecodeError() # memory hints, such as PLD
     i.imm32 = imm12.zero_extend(32)
     i.add = (U == '1')
     i.operands = [RegisterOperand(i.t), MemoryAccessOperand(
-- 
2.43.0


From 2b488dd4ea5c7b3ffb0e5dc7e8d1b46ae19308be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 26/59] fix: movs.w with a rotated immediate sets the carry
 flag

---
 cmdis/instructions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 6fc7ca8..b024df8 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -372,7 +372,7 @@ class Move(DataProcessing):
         if self.negate:
             result = ~result
         cpu.r[self.d] = result
-        self._set_flags(cpu, result, cpu.apsr.c, None)
+        self._set_flags(cpu, result, getattr(self, 'carry', None), None)
         super(Move, self)._eval(cpu)
 
 @instr("mov", Move, "010001 10 D Rm(4) Rd(3)")
@@ -410,7 +410,10 @@ def mov2(i, im, S, imm3, Rd, imm8):
     i._mnemonic += "s.w" if S else ".w"
     i.d = Rd.unsigned
     i.setflags = (SetFlags.Never, SetFlags.Always)[S.unsigned]
-    i.imm32, i.carry = ThumbExpandImm_C(im % imm3 % imm8, bit0) # TODO deal with carry_in
+    imm12 = im % imm3 % imm8
+    i.imm32, carry = ThumbExpandImm_C(imm12, bit0)
+    if imm12[10:12] != '00':
+        i.carry = carry # only a rotated immediate produces a carry
     i.operands = [RegisterOperand(i.d), ImmediateOperand(i.imm32.unsigned)]
 
 # TODO test
-- 
2.43.0


From b6be50e2674667fe3ef364f97da072078058db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 27/59] fix: msr APSR_nzcvqg shows its mask

---
 cmdis/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index b509696..250e706 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -148,7 +148,7 @@ class CpsOperand(Operand):
         return result
 
 class SpecialRegisterOperand(Operand):
-    def __init__(self, spec, mask=-1):
+    def __init__(self, spec, mask=None):
         self._spec = spec
         self._mask = mask
 
@@ -171,7 +171,7 @@ class SpecialRegisterOperand(Operand):
                 result = "EPSR"
             elif lower == '111':
                 result = "IEPSR"
-            if lower < 4 and self._mask != -1:
+            if lower < 4 and self._mask is not None:
                 if self._mask == '10':
                     result += '_nzcvq'
                 elif self._mask == '01':
-- 
2.43.0


From 932507a2f4f950a87594f2018b845def88880797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 28/59] fix: label addresses wrap at 32 bits and can be
 relative to the word-aligned PC

---
 cmdis/formatter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index 250e706..2f41d8a 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -80,15 +80,20 @@ class ImmediateOperand(Operand):
         return "#%d" % self._imm
 
 class LabelOperand(Operand):
-    def __init__(self, offset):
+    def __init__(self, offset, align=1):
         self._offset = offset
+        self._align = align
 
     def format(self, formatter):
+        # The label is relative to the PC value read by the instruction, which may be aligned.
+        address = formatter.instruction.address
+        base = (address + 4) & ~(self._align - 1)
+
         # Add a comment with the absolute address of the label.
-        comment = "0x%x" % (formatter.instruction.address + 4 + self._offset)
+        comment = "0x%x" % ((base + self._offset) & 0xffffffff)
         formatter.add_comment(comment)
 
-        return ".%+d" % (self._offset + 4)
+        return ".%+d" % (base + self._offset - address)
 
 class ShiftRotateOperand(Operand):
     OP_NAMES = ["None",
-- 
2.43.0


From c98739f61f5153683e4145224e050a3b0a1e1485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 29/59] fix: adr labels are relative to the word-aligned PC and
 negative when subtracted

---
 cmdis/instructions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index b024df8..ffd93fd 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -272,14 +272,15 @@ def adr_t1(i, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (imm8 % '00').zero_extend(32)
     i.add = True
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned, align=4)]
 
 @instr("adr.w", AddressToRegister, "11110 im 10101 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=False)
 @instr("adr.w", AddressToRegister, "11110 im 10000 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=True)
 def adr_t2(i, im, imm3, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (im % imm3 % imm8).zero_extend(32)
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    i.operands = [RegisterOperand(i.d), LabelOperand(
+        i.imm32.unsigned if i.add else -i.imm32.unsigned, align=4)]
 
 # ------------------------------ Sign/unsigned extend instructions ------------------------------
 
-- 
2.43.0


From b3e689738acd880894ae104453bc3ec642313d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 30/59] fix: mock SP follows the stack pointer selected by
 CONTROL.SPSEL

---
 cmdis/mock_cpu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 6f48260..8215cc3 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -48,7 +48,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         self._regs[reg] = value
 
         # Mirror SP writes to PSP/MSP and vice versa.
-        spsel = (CORE_REGISTER['control'] & 2) >> 1
+        spsel = (self._regs[CORE_REGISTER['control']] & 2) >> 1
         if reg == CORE_REGISTER['sp']:
             if spsel:
                 self._regs[CORE_REGISTER['psp']] = value
@@ -57,6 +57,8 @@ class MockCpuModelDelegate(CpuModelDelegate):
         elif (reg == CORE_REGISTER['msp'] and spsel == 0) or \
                 (reg == CORE_REGISTER['psp'] and spsel == 1):
             self._regs[CORE_REGISTER['sp']] = value
+        elif reg == CORE_REGISTER['control']:
+            self._regs[CORE_REGISTER['sp']] = self._regs[CORE_REGISTER['psp' if spsel else 'msp']]
 
     def _find_mem(self, addr):
         for m in self._mem:
-- 
2.43.0


From 6794c8efafaad584eb5cf0a73294b1b0f7f26ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 31/59] fix: mock memory accesses crossing the end of a memory
 neither raise nor grow it

---
 cmdis/mock_cpu.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 8215cc3..c75b424 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -18,7 +18,6 @@ from collections import namedtuple
 
 from .model import CpuModelDelegate
 from .registers import CORE_REGISTER
-from .utilities import (bytes_to_le16, bytes_to_le32, le16_to_bytes, le32_to_bytes)
 
 MemBuffer = namedtuple('MemBuffer', 'start end data')
 
@@ -67,25 +66,19 @@ class MockCpuModelDelegate(CpuModelDelegate):
         return None, 0
 
     def read_memory(self, addr, size=32):
-        mem, offset = self._find_mem(addr)
-        if mem:
-            if size == 8:
-                return mem.data[offset:offset+1]
-            elif size == 16:
-                return bytes_to_le16(mem.data[offset:offset+2])
-            elif size == 32:
-                return bytes_to_le32(mem.data[offset:offset+4])
-        return 0
+        # Access bytes individually, since an access may cross the end of a memory.
+        value = 0
+        for i in range(size // 8):
+            mem, offset = self._find_mem(addr + i)
+            if mem:
+                value |= mem.data[offset] << (i * 8)
+        return value
 
     def write_memory(self, addr, value, size=32):
-        mem, offset = self._find_mem(addr)
-        if mem:
-            if size == 8:
-                mem.data[offset:offset+1] = [value]
-            elif size == 16:
-                mem.data[offset:offset+2] = le16_to_bytes(value)
-            elif size == 32:
-                mem.data[offset:offset+4] = le32_to_bytes(value)
+        for i in range(size // 8):
+            mem, offset = self._find_mem(addr + i)
+            if mem:
+                mem.data[offset] = (value >> (i * 8)) & 0xff
 
     def write_memory_block(self, addr, data):
         mem, offset = self._find_mem(addr)
-- 
2.43.0


From 2a409d5a30752ec677fd4f4b78a882b30d1351bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 32/59] fix: mock memory block writes do not grow the memory

---
 cmdis/mock_cpu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index c75b424..9c5d529 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -83,6 +83,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
     def write_memory_block(self, addr, data):
         mem, offset = self._find_mem(addr)
         if mem:
+            data = data[:len(mem.data) - offset]
             mem.data[offset:offset+len(data)] = data
 
     def read_memory_block(self, addr, length):
-- 
2.43.0


From 9be2a182eb8bc06a2da88adcdcb8309e725e1655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 33/59] fix: mock registers hold 32-bit values

---
 cmdis/mock_cpu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 9c5d529..23fb54c 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -37,6 +37,8 @@ class MockCpuModelDelegate(CpuModelDelegate):
         return self._regs[reg]
 
     def write_register(self, reg, value):
+        value &= 0xffffffff
+
         # Special restrictions for CONTROL register writes.
         if reg in (CORE_REGISTER['faultmask'], CORE_REGISTER['primask']):
             value = value & 1
-- 
2.43.0


From 10206ec4a733144abd1edc53860ca73e1505db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 34/59] fix: float conversion utilities import struct

---
 cmdis/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index 941a8eb..a1e2d15 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -14,6 +14,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import struct
+
 ## @brief Compute the hamming weight, or number of 1s, of the argument.
 def hamming_weight(v):
     weight = 0
-- 
2.43.0


From 5eb7f15893be606e2e9b72765428d4843c3223ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 35/59] fix: byteListToU32leList works on Python 3

---
 cmdis/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index a1e2d15..efd2898 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -51,7 +51,7 @@ def le32_to_bytes(value, offset=0):
 def byteListToU32leList(data):
     """Convert a list of bytes to a list of 32-bit integers (little endian)"""
     res = []
-    for i in range(len(data) / 4):
+    for i in range(len(data) // 4):
         res.append(data[i * 4 + 0] |
                    data[i * 4 + 1] << 8 |
                    data[i * 4 + 2] << 16 |
-- 
2.43.0


From c217282b1907ddfd41dac2e047cf0b17e9a9b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 36/59] fix: bfx and bfi handle fields starting at bit 0

---
 cmdis/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index efd2898..63fadd2 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -141,13 +141,13 @@ def invert32(value):
 
 ## @brief Extract a value from a bitfield.
 def bfx(value, msb, lsb=None):
-    lsb = lsb or msb
+    lsb = msb if lsb is None else lsb
     mask = bitmask((msb, lsb))
     return (value & mask) >> lsb
 
 ## @brief Change a bitfield value.
 def bfi(value, field, msb, lsb=None):
-    lsb = lsb or msb
+    lsb = msb if lsb is None else lsb
     mask = bitmask((msb, lsb))
     value &= ~mask
     value |= (field << lsb) & mask
-- 
2.43.0


From 8296612f6e58af13e60271d34049824d9169c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 37/59] fix: the simulator starts without a binary on Python 3

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 6007024..524631b 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -358,7 +358,7 @@ class SimTool(object):
                 finally:
                     self.args.binary_file.close()
             else:
-                self.binary_data = ''
+                self.binary_data = bytearray()
 
             # Set logging level
             self.configure_logging()
-- 
2.43.0


From 1131b7b059fd20e39aefb72a46fb0151e07bf976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 38/59] fix: the reset command works

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 524631b..202c4ea 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -411,7 +411,7 @@ class SimTool(object):
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-    def handle_reset(self, args, other):
+    def handle_reset(self, args):
         self.reset_sim()
 
     @cmdoptions([make_option('-c', "--center", action="store_true")])
-- 
2.43.0


From b6f670def6de1445075913d105e17aaf6ff4f6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 39/59] fix: halfword and word dumps label lines with byte
 addresses

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 202c4ea..4fceef0 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -140,7 +140,7 @@ def hex_width(value, width):
 def dumpHexData(data, startAddress=0, width=8):
     i = 0
     while i < len(data):
-        print "%08x: " % (startAddress + i),
+        print "%08x: " % (startAddress + i * (width // 8)),
 
         while i < len(data):
             d = data[i]
-- 
2.43.0


From 3dff72ef74d15a7825acd1a10aefae58fb0da8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 40/59] fix: write16 and write32 accept values above 255

---
 cmdis/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 4fceef0..a7b8036 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -484,10 +484,10 @@ class SimTool(object):
             print "Error: no data for write"
             return 1
         else:
-            data = bytearray(self.convert_value(d) for d in args[1:])
+            data = [self.convert_value(d) for d in args[1:]]
 
         if width == 8:
-            pass
+            data = bytearray(data)
         elif width == 16:
             data = bytearray(cmdis.utilities.u16leListToByteList(data))
         elif width == 32:
-- 
2.43.0


From 30473d5b108253ac7bcaf25cae0032ca9b237a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 41/59] fix: step is not affected by the bytes after the
 instruction

---
 cmdis/__main__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index a7b8036..4258825 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -503,15 +503,13 @@ class SimTool(object):
 
         try:
             code = self.cpu.read_memory_block(pc, 4)
-            ilist = [i for i in dis.disasm(code, pc)]
 
-            if not len(ilist):
+            # Only use the first instruction, and do not even decode what follows it.
+            i = next(dis.disasm(code, pc), None)
+            if i is None:
                 print "No instructions found!"
                 return
 
-            # Only use the first instruction.
-            i = ilist[0]
-
             print "{addr:#010x}:  {instr}".format(addr=i.address, instr=fmt.format(i))
 
             i.execute(self.cpu)
-- 
2.43.0


From 5e9fee8448d1356a68f1f2dd64f1e5f1210a5ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 42/59] fix: disasm of no instructions prints nothing instead
 of failing

---
 cmdis/__main__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 4258825..37ac037 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -621,9 +621,8 @@ class SimTool(object):
 #                 text += "{addr:#010x}:{pc_marker} {bytes:<10}{mnemonic:<8}{args}\n".format(addr=i.address, pc_marker=pc_marker, bytes=hexBytes, mnemonic=i.mnemonic, args=i.op_str)
         except cmdis.decoder.UndefinedInstructionError:
             print "Undefined instruction"
-        if text[-1] == '\n':
-            text = text[:-1]
-        print text
+        if text:
+            print text.rstrip('\n')
 
 
 def main():
-- 
2.43.0


From 734a59a0cdc8dabbfbf9f1932339bdc346df52fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 43/59] fix: empty commands, spaces before $ and repeating a
 line with several commands

---
 cmdis/__main__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 37ac037..768d2ce 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -195,7 +195,7 @@ class SimConsole(object):
                         self.process_command_line(line)
                         self.last_command = line
                     elif self.last_command:
-                        self.process_command(self.last_command)
+                        self.process_command_line(self.last_command)
                 except KeyboardInterrupt:
                     print
         except EOFError:
@@ -210,7 +210,10 @@ class SimConsole(object):
 
     def process_command(self, cmd):
         try:
-            if (cmd.strip())[0] == '$':
+            cmd = cmd.strip()
+            if not cmd:
+                return
+            if cmd[0] == '$':
                 cmd = cmd[1:].strip()
                 self.tool.handle_python(cmd)
                 return
-- 
2.43.0


From 021bde9e3bbfebdb8e2eddfa5d813a7965a47757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 44/59] fix: an invalid command option no longer exits the
 simulator

---
 cmdis/__main__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 768d2ce..8e521b3 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -173,7 +173,11 @@ def cmdoptions(opts):
         for opt in opts:
             parser.add_option(opt)
         def foo(inst, args):
-            namespace, other_args = parser.parse_args(args)
+            try:
+                namespace, other_args = parser.parse_args(args)
+            except SystemExit:
+                # optparse has already printed the error.
+                raise ToolError("invalid option")
             return fn(inst, namespace, other_args)
         return foo
     return process_opts
-- 
2.43.0


From 34abd271b448cbcc3528d6193fa864f980975f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:28 +0000
Subject: [PATCH 45/59] fix: wreg rejects unknown registers

---
 cmdis/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 8e521b3..ae18f3f 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -415,6 +415,8 @@ class SimTool(object):
             raise ToolError("No value specified")
 
         reg = args[0].lower()
+        if reg not in cmdis.registers.CORE_REGISTER:
+            raise ToolError("invalid register '%s'" % (reg))
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-- 
2.43.0


From 5f89a4464a02c2c9d935c812b1dc971ebe92ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:03 +0000
Subject: [PATCH 46/59] fix: words matching no branch of the decoder tree are
 undefined instructions

---
 cmdis/decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index d89890f..f5524f4 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -172,7 +172,8 @@ class DecoderTree(object):
         for k, subdecoders in children.items():
             children[k] = self._build_tree(subdecoders)
 
-        return DecoderTreeNode(mask=commonMask, children=children)
+        # A plain dict, so that decoding a word that matches no child raises KeyError.
+        return DecoderTreeNode(mask=commonMask, children=dict(children))
 
     def dump(self, t=None, depth=0):
         if t is None:
-- 
2.43.0


From 01ccdc117fd8723bfb0997efe993db395bfb5ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:20 +0000
Subject: [PATCH 47/59] fix: concatenating a bitstring to itself in place

---
 cmdis/bitstring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index e0c3a84..58b7c72 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -471,9 +471,10 @@ class bitstring(object):
 
     def __imod__(self, other):
         if isinstance(other, bitstring):
+            # Update the value first, since other may be this same object.
+            self._value = (self._value << other._width) | other._value
             self._width += other._width
             self._mask = (1 << self._width) - 1
-            self._value = (self._value << other._width) | other._value
             return self
         elif isinstance(other, six.string_types):
             return self.__imod__(bitstring(other))
-- 
2.43.0


From c37707754338f8f8b49c89d45722f3ed55ce3a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:15 +0000
Subject: [PATCH 48/59] fix: assigning an integer to a bitstring slice wider
 than 32 bits keeps all its bits

---
 cmdis/bitstring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 58b7c72..9c19b45 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -261,7 +261,8 @@ class bitstring(object):
             if step != 1:
                 raise ValueError("cannot set slice with step != 1")
             if isinstance(value, six.integer_types):
-                value = bitstring(value)
+                # Sized to the slice, so no bits are lost from negative or large integers.
+                value = bitstring(value, max(stop - start, 0))
             elif isinstance(value, six.string_types):
                 value = bitstring(value)
             elif not isinstance(value, bitstring):
-- 
2.43.0


From 3db31ae309bd6257c0a567077fc915bee9b97f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:31 +0000
Subject: [PATCH 49/59] fix: assigning a bitstring to a slice of itself

---
 cmdis/bitstring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 9c19b45..ecc2b5c 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -268,8 +268,8 @@ class bitstring(object):
             elif not isinstance(value, bitstring):
                 raise TypeError("value must be a bitstring, integer, or string")
             mask = (((1 << (stop - start)) - 1) << start)
-            self._value &= ~mask
-            self._value |= (value.unsigned << start) & mask
+            # Clear and set in one step, since value may be this same object.
+            self._value = (self._value & ~mask) | ((value.unsigned << start) & mask)
             return
 
         if not isinstance(key, six.integer_types):
-- 
2.43.0


From 8a1d0b4e829ca897782fcf6a5807f09c88e83f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 50/59] fix: bitstring reflected operators reject None

---
 cmdis/bitstring.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index ecc2b5c..be5e868 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -394,29 +394,36 @@ class bitstring(object):
             other = bitstring(other).unsigned
         return bitstring(self._value | other, width)
 
+    @staticmethod
+    def _left_operand(other):
+        # None creates an empty bitstring, but is not a supported operand.
+        if other is None:
+            raise TypeError("operand type is not supported")
+        return bitstring(other)
+
     def __radd__(self, other):
-        return bitstring(other).__add__(self)
+        return self._left_operand(other).__add__(self)
 
     def __rsub__(self, other):
-        return bitstring(other).__sub__(self)
+        return self._left_operand(other).__sub__(self)
 
     def __rmul__(self, other):
-        return bitstring(other).__mul__(self)
+        return self._left_operand(other).__mul__(self)
 
     def __rfloordiv__(self, other):
-        return bitstring(other).__floordiv__(self)
+        return self._left_operand(other).__floordiv__(self)
 
     def __rmod__(self, other):
-        return bitstring(other).__mod__(self)
+        return self._left_operand(other).__mod__(self)
 
     def __rand__(self, other):
-        return bitstring(other).__and__(self)
+        return self._left_operand(other).__and__(self)
 
     def __rxor__(self, other):
-        return bitstring(other).__xor__(self)
+        return self._left_operand(other).__xor__(self)
 
     def __ror__(self, other):
-        return bitstring(other).__or__(self)
+        return self._left_operand(other).__or__(self)
 
     def __iadd__(self, other):
         if isinstance(other, bitstring):
-- 
2.43.0


From 2eb9b82e7ede76dabf468f94c15bca84be90b324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:45 +0000
Subject: [PATCH 51/59] fix: an address dereference without its closing bracket
 is an error

---
 cmdis/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index ae18f3f..490381f 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -567,6 +567,8 @@ class SimTool(object):
         arg = arg.lower().replace('_', '')
         deref = (arg[0] == '[')
         if deref:
+            if arg[-1] != ']':
+                raise ToolError("missing ']' in '%s'" % arg)
             arg = arg[1:-1]
             offset = 0
             if ',' in arg:
-- 
2.43.0


From deb591c3d3f0888706161aa9741888fa1cca9122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:45 +0000
Subject: [PATCH 52/59] fix: step and disasm report unpredictable instructions,
 keeping the listing before them

---
 cmdis/__main__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 490381f..d5f66a8 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -525,6 +525,8 @@ class SimTool(object):
 
         except cmdis.decoder.UndefinedInstructionError:
             print "Undefined instruction"
+        except cmdis.decoder.UnpredictableError:
+            print "Unpredictable instruction"
 
     def handle_memory_map(self, args):
         self.print_memory_map()
@@ -632,6 +634,8 @@ class SimTool(object):
 #                 text += "{addr:#010x}:{pc_marker} {bytes:<10}{mnemonic:<8}{args}\n".format(addr=i.address, pc_marker=pc_marker, bytes=hexBytes, mnemonic=i.mnemonic, args=i.op_str)
         except cmdis.decoder.UndefinedInstructionError:
             print "Undefined instruction"
+        except cmdis.decoder.UnpredictableError:
+            print "Unpredictable instruction"
         if text:
             print text.rstrip('\n')
 
-- 
2.43.0


From f44a59169b585d306140a0d89daefb61bad1ca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:19 +0000
Subject: [PATCH 53/59] fix: msr writes the special register it names

MoveToSpecial only advanced the PC, whatever register and mask it named.
---
 cmdis/instructions.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index ffd93fd..406c5a8 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -24,6 +24,7 @@ from .formatter import (RegisterOperand, ImmediateOperand, LabelOperand,
                         ShiftRotateOperand, BarrierOperand, MemoryAccessOperand,
                         ReglistOperand, CpsOperand, SpecialRegisterOperand)
 from .helpers import *
+from .model import CpuMode
 from .registers import CORE_REGISTER
 
 class SetFlags(Enum):
@@ -978,6 +979,39 @@ class MoveFromSpecial(Instruction):
 
 class MoveToSpecial(Instruction):
     def _eval(self, cpu):
+        value = cpu.r[self.n]
+        if self.SYSm[3:8] == '00000': # xPSR access
+            if self.SYSm[2] == '0': # Writes to IPSR and EPSR are ignored
+                xpsr = cpu.xpsr
+                if self.mask[0] == '1' and cpu.has_dsp_ext:
+                    xpsr[16:20] = value[16:20]
+                if self.mask[1] == '1':
+                    xpsr[27:32] = value[27:32]
+                cpu.xpsr = xpsr
+        elif not cpu.is_privileged:
+            pass
+        elif self.SYSm == 8:
+            cpu.msp = value
+        elif self.SYSm == 9:
+            cpu.psp = value
+        elif self.SYSm == 16:
+            cpu.write_register(CORE_REGISTER['primask'], value[0])
+        elif self.SYSm == 17:
+            cpu.write_register(CORE_REGISTER['basepri'], value[0:8])
+        elif self.SYSm == 18:
+            basepri = cpu.read_register(CORE_REGISTER['basepri'])[0:8]
+            if value[0:8] != 0 and (value[0:8] < basepri or basepri == 0):
+                cpu.write_register(CORE_REGISTER['basepri'], value[0:8])
+        elif self.SYSm == 19: # TODO and (cpu.execution_priority() > -1)
+            cpu.write_register(CORE_REGISTER['faultmask'], value[0])
+        elif self.SYSm == 20:
+            control = cpu.control
+            control[cpu.nPRIV] = value[cpu.nPRIV]
+            if cpu.mode == CpuMode.Thread:
+                control[cpu.SPSEL] = value[cpu.SPSEL]
+            if cpu.has_fp_ext:
+                control[cpu.FPCA] = value[cpu.FPCA]
+            cpu.write_register(CORE_REGISTER['control'], control)
         cpu.pc += self.size
 
 @instr("mrs", MoveFromSpecial, "11110 0 1111 1 0 1111", "10 0 0 Rd(4) SYSm(8)")
-- 
2.43.0


From 477cd97b8a029feaf14877cee95fc4304aef2f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:17 +0000
Subject: [PATCH 54/59] fix: console session no longer ends at input that is
 not valid in the locale's encoding

---
 cmdis/__main__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index d5f66a8..ad85ee0 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -190,6 +190,10 @@ class SimConsole(object):
         self.last_command = ''
 
     def run(self):
+        # Input that cannot be decoded must not end the session.
+        if hasattr(sys.stdin, 'reconfigure'):
+            sys.stdin.reconfigure(errors='backslashreplace')
+
         try:
             while True:
                 try:
-- 
2.43.0


From abda5c10e70948bfb07a3945765cd3e8c756ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:55 +0000
Subject: [PATCH 55/59] fix: an empty bit string can be reversed and rebuilt
 from its text or list of bits

---
 cmdis/bitstring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index be5e868..f852813 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -38,7 +38,7 @@ class bitstring(object):
         elif isinstance(val, six.string_types):
             # String.
             self._width = len(val)
-            self._value = int(val, base=2)
+            self._value = int(val, base=2) if val else 0
         elif isinstance(val, bytearray):
             # Little endian byte array. Must be checked before Sequence, which includes bytearray.
             self._width = len(val) * 8
@@ -49,7 +49,7 @@ class bitstring(object):
             # Iterable.
             # TODO support iterables of '0','1' as well as ints
             self._width = len(val)
-            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
+            self._value = functools.reduce(lambda x,y:(x << 1) | y, val, 0)
         else:
             raise TypeError("value type is not supported")
 
-- 
2.43.0


From e46e3ed85a8c8b65be5f79e473924c00fadda01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:03 +0000
Subject: [PATCH 56/59] fix: memory block accesses pass plain integers to the
 delegate

Block reads and writes handed a bitstring address or length straight to the
delegate, unlike all other register and memory accesses.
---
 cmdis/model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmdis/model.py b/cmdis/model.py
index 9871706..9329c3c 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -267,10 +267,16 @@ class CpuModel(object):
         return self.write_memory(addr, value, 8)
 
     def write_memory_block(self, addr, data):
+        if isinstance(addr, bitstring):
+            addr = addr.unsigned
         if self._delegate is not None:
             self._delegate.write_memory_block(addr, data)
 
     def read_memory_block(self, addr, length):
+        if isinstance(addr, bitstring):
+            addr = addr.unsigned
+        if isinstance(length, bitstring):
+            length = length.unsigned
         if self._delegate is not None:
             return self._delegate.read_memory_block(addr, length)
 
-- 
2.43.0


From 9d83122e0df3fcacebbf2e07e38ab57e4ef49e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:17 +0000
Subject: [PATCH 57/59] fix: nested scopes in console expressions see the CPU

Comprehensions, generator expressions and lambdas could not see names passed
as eval()'s locals, such as cpu.
---
 cmdis/__main__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index ad85ee0..4b3843b 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -549,10 +549,9 @@ class SimTool(object):
 
     def handle_python(self, args):
         try:
-            env = {
-                    'cpu' : self.cpu,
-                }
-            result = eval(args, globals(), env)
+            # A single namespace, so that nested scopes such as comprehensions see all names.
+            env = dict(globals(), cpu=self.cpu)
+            result = eval(args, env)
             if result is not None:
                 if type(result) is int:
                     print "0x%08x (%d)" % (result, result)
-- 
2.43.0


From adf2abe8f032b3f05d527b7e91b8fb8ca034285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:10 +0000
Subject: [PATCH 58/59] fix: disassembly does not copy the remaining data for
 each instruction

---
 cmdis/disasm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmdis/disasm.py b/cmdis/disasm.py
index 84cb17e..5cabd3f 100644
--- a/cmdis/disasm.py
+++ b/cmdis/disasm.py
@@ -31,7 +31,9 @@ class Disassembler(object):
         while address < endAddress:
             # Decode the next instruction.
             try:
-                i = decoder.decode(data[offset:], address)
+                # Pass only the longest instruction's bytes, since copying all of the remaining
+                # data every time takes quadratic time.
+                i = decoder.decode(data[offset:offset + 4], address)
             except UndefinedInstructionError:
                 # Ignore the undefined error if it's the last few bytes.
                 if endAddress - address < 4:
-- 
2.43.0


From 31f98a5a58b12a22fe8f945fd1b5460c655e6139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:47 +0000
Subject: [PATCH 59/59] fix: looking up an unknown register does not configure
 the root logger

---
 cmdis/registers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/registers.py b/cmdis/registers.py
index 065cdce..03f7e0d 100644
--- a/cmdis/registers.py
+++ b/cmdis/registers.py
@@ -94,7 +94,8 @@ def register_name_to_index(reg):
         try:
             reg = CORE_REGISTER[reg.lower()]
         except KeyError:
-            logging.error('cannot find %s core register', reg)
+            # The module functions of logging would configure the root logger.
+            logging.getLogger(__name__).error('cannot find %s core register', reg)
             return
     return reg
 
-- 
2.43.0

