From 7e794d2027aa1244d4ba3d3453714877b238470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:32 +0000
Subject: [PATCH 01/15] fix: place the mask of an LSB-left bit range at its LSB

Reading or updating a partial slice of an LSB-left bit-field used a mask
shifted to the last bit of the range.
---
 h800/bitfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index a4af429..b5b1d1d 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -326,7 +326,7 @@ class BitField:
         if width == self._width:
             shift = 0
         else:
-            shift = self._shift(rend)
+            shift = self._shift(self._lsbIndex(rstart, rend))
         bitmask = (2 ** width - 1) << shift
         # print("BM: %d:%d | %d:%d | S=%d | B=0x%x" %
         #       (start, end, rstart, rend, shift, bitmask))
-- 
2.43.0


From 204752bb14f0f29bb8e1becea164836be11e079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:33 +0000
Subject: [PATCH 02/15] fix: reject bit-field values outside 0..2**width-1

A value of exactly 2**width (or a negative one) was accepted and spilled
into the neighbouring bits.
---
 h800/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index b5b1d1d..ceddf66 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -315,8 +315,8 @@ class BitField:
             width = self.width
         if width < 0 or width > self.maxval:
             raise ValueError("Illegal bit-field width %d!" % self.width)
-        if value > 2 ** width:
-            raise ValueError("Value is greater than allowed for %d-bit field!"
+        if value < 0 or value > 2 ** width - 1:
+            raise ValueError("Value is out of range for %d-bit field!"
                              % width)
 
     def _bitmask(self, start, end):
-- 
2.43.0


From dfd8eb06a2022f329a2045666b3bfdfa412a72c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:34 +0000
Subject: [PATCH 03/15] fix: reject a negative initial value of a bit-field

---
 h800/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index ceddf66..c00e107 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -110,8 +110,8 @@ class BitField:
             raise ValueError("Width is greater than maximum allowed!")
         self._maxval = 2 ** width - 1
         self._value = value
-        if self._value > self._maxval:
-            raise ValueError("Value is greater than maximum allowed by "
+        if self._value < 0 or self._value > self._maxval:
+            raise ValueError("Value is outside the range allowed by "
                              "bit-field width!")
         self._numbering = numbering
         if numbering not in (self.BIT_SCHEME_LSB_0, self.BIT_SCHEME_LSB_1,
-- 
2.43.0


From 80ef4ef8a7f1e2288d56812e654a85cae3df0f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:36 +0000
Subject: [PATCH 04/15] fix: BitField.set(0) and clear(0) address bit 0, not
 all bits

---
 h800/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index c00e107..78286ad 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -410,7 +410,7 @@ class BitField:
 
     def set(self, index=None):
         "Set the specified bit (or all bits if not specified) to 1."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 1)
         else:
@@ -418,7 +418,7 @@ class BitField:
 
     def clear(self, index=None):
         "Set the specified bit (or all bits if not specified) to 0."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 0)
         else:
-- 
2.43.0


From 3cdf82f7f87144ab82d5b8d4c5dfaf9cb02a832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:37 +0000
Subject: [PATCH 05/15] fix: BitField range predicates compare the range itself

isRange(..., 1) compared the right-aligned sub-field with a mask in place,
and isRangeClr was true for partially set ranges.
---
 h800/bitfield.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 78286ad..f13706d 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -443,11 +443,10 @@ class BitField:
         if value not in (0, 1):
             raise ValueError("Bit-field Value must be 0 or 1!")
         subfield = self.__getitem__(slice(start, end))
-        bitmask = self._bitmask(start, end)
         if value == 0:
             return True if subfield == 0 else False
         else:
-            setval = int(bitmask)
+            setval = 2 ** (abs(start - end) + 1) - 1
             return True if subfield == setval else False
 
     def isRangeSet(self, start, end):
@@ -456,4 +455,4 @@ class BitField:
 
     def isRangeClr(self, start, end):
         "Return True if the specified range of bits are all 0."
-        return not self.isRangeSet(start, end)
+        return self.isRange(start, end, 0)
-- 
2.43.0


From 3711e60735e7da57f9c712b1186a197c8a8821fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:38 +0000
Subject: [PATCH 06/15] fix: a memory bank can be iterated more than once

---
 h800/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/memory.py b/h800/memory.py
index ee4fe3e..6e42b77 100755
--- a/h800/memory.py
+++ b/h800/memory.py
@@ -64,7 +64,7 @@ class MemoryBank:
         return len(self._data)
 
     def __iter__(self):
-        return self
+        return iter(self._data.values())
 
     def __next__(self):
         if self._current >= len(self._data):
-- 
2.43.0


From 55a46383f013b90cb996ce8d49bfb4bedd2ce675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:39 +0000
Subject: [PATCH 07/15] fix: store a register of a group by name or number

The two branches were swapped: a name created a stray entry and a number
raised KeyError.
---
 h800/registers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index cf8aa3e..3ab9a93 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -167,9 +167,13 @@ class RegisterGroup:
         if isinstance(key, slice):
             raise ValueError("Slices not supported!")
         if isinstance(key, str):
-            self._registers[key] = value
-        else:
+            if key not in REGISTERS:
+                raise ValueError("Invalid register name %s!" % key)
             self._registers[REGISTERS[key]] = value
+        else:
+            if key < 0 or key >= len(REGISTERS):
+                raise ValueError("Invalid register number %d!" % key)
+            self._registers[key] = value
 
     def __len__(self):
         return len(self._registers)
-- 
2.43.0


From 658a938d9b310f703b21b9d68a1d78a0b80341a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:40 +0000
Subject: [PATCH 08/15] fix: clear every register, and iterate a group more
 than once

After one iteration over a register group (or the register file), clear()
and further iterations over the group did nothing.
---
 h800/registers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index 3ab9a93..4b62a70 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -179,7 +179,7 @@ class RegisterGroup:
         return len(self._registers)
 
     def __iter__(self):
-        return self
+        return iter(self._registers.values())
 
     def __next__(self):
         if self._current >= len(REGISTERS):
@@ -253,5 +253,5 @@ class Registers:
         return text
 
     def clear(self):
-        for group in self:
+        for group in self._registers.values():
             group.clear()
-- 
2.43.0


From fd14738490729455c31fe841b970d419cb300c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:41 +0000
Subject: [PATCH 09/15] fix: keep column 9 in the remarks of P, R and L cards

---
 h800/arguscard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/arguscard.py b/h800/arguscard.py
index a1e19c0..33e61e9 100755
--- a/h800/arguscard.py
+++ b/h800/arguscard.py
@@ -41,9 +41,9 @@ class Card(punchcard.PunchCard):
             self._record["operand2"] = None
             self._record["operand3"] = None
             self._record["misc"] = None
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         if self.column1 == 'L':
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         self._record["instruction"] = self._record["operation"]
         if self._record["operation"] and ',' in self._record["operation"]:
             self._record["instruction"] = \
-- 
2.43.0


From 3a8b0e8f03f9e3359d6f21bf3e3993002d32a56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:42 +0000
Subject: [PATCH 10/15] fix: punch-card fields do not include the line
 terminator

---
 h800/punchcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/punchcard.py b/h800/punchcard.py
index 06cf50e..4336429 100755
--- a/h800/punchcard.py
+++ b/h800/punchcard.py
@@ -65,7 +65,7 @@ class PunchCard:
                 self._layout.append((fstart, fwidth))
             self._fields = []
             for s, w in self._layout:
-                self._fields.append(line[s-1:s-1+w])
+                self._fields.append(self._line[s-1:s-1+w])
             self._strippedFields = []
             self._record = {}
             if linenum != 0:
-- 
2.43.0


From 14c8ca44e7837fe16056ddb210eb519d4a8f2804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:43 +0000
Subject: [PATCH 11/15] fix: detect multiply-defined symbols

The previous definitions were looked up at the wrong level of the table, so
a second definition silently replaced the first.
---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 631e9bc..44b28ef 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -277,7 +277,7 @@ def buildSymbolTable(filename, symtab, verbose=False):
                 symtab[tagName][seg][subseg] = {}
                 symtab[tagName][seg][subseg][symtype] = symtabEntry
             else:
-                prevdef = symtab[tagName]
+                prevdef = symtab[tagName][seg][subseg]
                 if symtype not in prevdef.keys():
                     symtab[tagName][seg][subseg][symtype] = symtabEntry
                 else:
-- 
2.43.0


From 9b69bcf4a310c6134e3315e51b9ece28c521b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:44 +0000
Subject: [PATCH 12/15] fix: list every absolute symbol once

The found flag was never reset, so later symbols defined in several
segments were examined in their first segment only.
---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 44b28ef..baff2d9 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -323,8 +323,8 @@ def checkSymbolTable(symtab, verbose=False, complexOnlyError=False):
 def getAbsoluteSymbols(symtab):
     """Return a list of the symbols that have absolute definitions."""
     syms = []
-    found = False
     for symbol in sorted(symtab.keys()):
+        found = False
         for seg in sorted(symtab[symbol].keys()):
             for subseg in sorted(symtab[symbol][seg].keys()):
                 if "simple" in symtab[symbol][seg][subseg].keys():
-- 
2.43.0


From 19d3d14631c336a0d29b86945a8a35f4b08adc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:45 +0000
Subject: [PATCH 13/15] fix: prune every resolved symbol from the undefined
 list

Deleting while enumerating skipped the element after each removed one.
---
 h800/symbol_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index baff2d9..7a66da4 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -129,11 +129,11 @@ class SymbolTable:
         # Prune the undefs list.
         numUndefs = len(self._undefs)
         print("Pruning undefined symbols list (%d undefs)" % numUndefs)
-        for i, symbol in enumerate(self._undefs):
+        for symbol in list(self._undefs):
             entry = self._symbols[symbol]
             if entry.isValid():
                 print("Removing %s from undefined symbols list" % (symbol))
-                del self._undefs[i]
+                self._undefs.remove(symbol)
         print("Removed %d symbols from undef list" %
               (numUndefs - len(self._undefs)))
 
-- 
2.43.0


From cedf60f2fb9d221540692a08d7cefe75ba0a9070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:46 +0000
Subject: [PATCH 14/15] fix: read and update the value of a symbol table entry

The value property read an attribute that is never set, so reading raised
AttributeError and SymbolTable.update() could not work.
---
 h800/symbol_table.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 7a66da4..8a760f1 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -32,7 +32,17 @@ class SymbolTableEntry:
 
     @property
     def value(self):
-        return self._value
+        if self._absoluteValue is not None:
+            return self._absoluteValue
+        return self._complexValue
+
+    def update(self, value=None, symtype=None):
+        self._symtype = symtype
+        self._absoluteValue = self._complexValue = None
+        if symtype == "absolute":
+            self._absoluteValue = value
+        else:
+            self._complexValue = value
 
     @property
     def references(self):
@@ -100,12 +110,9 @@ class SymbolTable:
     def update(self, name, value=None, symtype=None):
         if name:
             if name not in list(self._symbols.keys()):
-                self.context.error("symbol \"%s\" not defined!" % (name))
+                print("ERROR: Symbol \"%s\" not defined!" % (name))
             else:
-                entry = self._symbols[name]
-                entry.value = value
-                entry.type = symtype
-                self._symbols[name] = entry
+                self._symbols[name].update(value, symtype)
 
     def resolve(self, maxPasses=10):
         nPrevUndefs = nUndefs = len(self._undefs)
-- 
2.43.0


From 898557a19936faeaa7f9696ece04af0f9fe57719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:53 +0000
Subject: [PATCH 15/15] fix: a rejected range store leaves the memory bank
 unchanged

---
 h800/memory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/h800/memory.py b/h800/memory.py
index 6e42b77..fa64fd4 100755
--- a/h800/memory.py
+++ b/h800/memory.py
@@ -55,8 +55,9 @@ class MemoryBank:
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
-            for i in range(key.start, key.stop):
-                self._data[i].value = value
+            words = [self._data[i] for i in range(key.start, key.stop)]
+            for word in words:
+                word.value = value
         else:
             self._data[key].value = value
 
-- 
2.43.0

