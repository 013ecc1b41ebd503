From a107cbc2bd1b49ac235f4aab0dcd87dfa5ca1feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 01/64] fix: do not take the character of a literal such as '+'
 for a math operator

---
 necroassembler/assembler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 5008b15..146d3ed 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -838,11 +838,16 @@ class Assembler:
             else:
                 break
 
+        # the character of a literal like '+' is never a math operator
+        literal_chars = 0
+        if token[len(pre_formula):][:1] == '\'' and token[len(pre_formula):][2:3] == '\'':
+            literal_chars = 3
+
         in_math = False
         valid_chars = 0
         for char in token[len(pre_formula):]:
             if not in_math:
-                if char in ('+', '-', '*', '/', '&', '|'):
+                if valid_chars >= literal_chars and char in ('+', '-', '*', '/', '&', '|'):
                     if valid_chars < 1:
                         break
                     in_math = True
-- 
2.43.0


From 315bf30962e14f3e17d440a97ec653a3b727bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 02/64] fix: accept the hexadecimal digits a-f in suffixed
 literals (0FFh)

---
 necroassembler/assembler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 146d3ed..53ab255 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -1,3 +1,4 @@
+import string
 from necroassembler.tokenizer import Tokenizer
 from necroassembler.utils import (pack_byte, pack_le32u, pack_le16u,
                                   pack_be32u, pack_be16u, in_bit_range,
@@ -330,8 +331,10 @@ class Assembler:
 
         for suffix in self.hex_suffixes:
             if token.endswith(suffix):
-                if token[:-len(suffix)].isdigit():
-                    return int(token[0:-len(suffix)], 16), False
+                digits = token[:-len(suffix)]
+                # only the first digit is required to be decimal (0FFh)
+                if digits[:1].isdigit() and all([c in string.hexdigits for c in digits]):
+                    return int(digits, 16), False
 
         for suffix in self.bin_suffixes:
             if token.endswith(suffix):
-- 
2.43.0


From ae33391f2057698bf3cf0e4994158503f76aa6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 03/64] fix: pad the last byte of a bounded .org region at the
 end of the source

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 53ab255..36a9e07 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -199,7 +199,7 @@ class Assembler:
 
         # check if we need to fill something
         if self.current_org_end > 0:
-            if self.current_org + self.org_counter < self.current_org_end:
+            if self.current_org + self.org_counter <= self.current_org_end:
                 blob = bytes([self.fill_value] * ((self.current_org_end + 1) -
                                                   (self.current_org + self.org_counter)))
                 self.append_assembled_bytes(blob)
-- 
2.43.0


From 2b6aa42d335022d2055054050c2be22a528bdd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 04/64] fix: do not pad a bounded .org region at the end of an
 included file

---
 necroassembler/assembler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 36a9e07..905f2a6 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -182,7 +182,7 @@ class Assembler:
             raise NotInMacroRecordingMode(instr)
         self.macro_recording = None
 
-    def assemble(self, code, context=None):
+    def _assemble_statements(self, code, context=None):
         tokenizer = Tokenizer(context=context)
         tokenizer.parse(code)
 
@@ -197,6 +197,9 @@ class Assembler:
                     print('assembled {0} -> ({1}) at 0x{2:x}'.format(statement,
                                                                      ','.join(['0x{0:02x}'.format(x) for x in self.assembled_bytes[current_index:]]), current_index))
 
+    def assemble(self, code, context=None):
+        self._assemble_statements(code, context)
+
         # check if we need to fill something
         if self.current_org_end > 0:
             if self.current_org + self.org_counter <= self.current_org_end:
@@ -737,7 +740,8 @@ class Assembler:
             raise InvalidArgumentsForDirective(instr)
         filename = self.stringify(instr.tokens[1])
         with open(filename) as f:
-            self.assemble(f.read(), context=filename)
+            # the end of an included file is not the end of the source
+            self._assemble_statements(f.read(), context=filename)
 
     def directive_incbin(self, instr):
         if len(instr.tokens) != 2:
-- 
2.43.0


From 0811f72fac766134bdd499ae8456f1229f887793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 05/64] fix: compare .goto and .upto with the current address,
 not with the output size

---
 necroassembler/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 905f2a6..4f49c27 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -617,7 +617,7 @@ class Assembler:
         offset = self.parse_integer(instr.tokens[1], 64, False)
         if offset is None:
             raise InvalidArgumentsForDirective(instr)
-        if offset < len(self.assembled_bytes):
+        if offset < self.pc:
             raise AddressOverlap(instr)
         value = self.fill_value
         if len(instr.tokens) == 3:
@@ -633,7 +633,7 @@ class Assembler:
         offset = self.parse_integer(instr.tokens[1], 64, False)
         if offset is None:
             raise InvalidArgumentsForDirective(instr)
-        if offset < len(self.assembled_bytes):
+        if offset < self.pc - self.current_org:
             raise AddressOverlap(instr)
         value = self.fill_value
         if len(instr.tokens) == 3:
-- 
2.43.0


From cb528d93e28c404689f89249d4fd6635eed13262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 06/64] fix: resolve the label references of every copy of a
 .repeat block

---
 necroassembler/assembler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 4f49c27..b431777 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -1,4 +1,5 @@
 import string
+from copy import copy
 from necroassembler.tokenizer import Tokenizer
 from necroassembler.utils import (pack_byte, pack_le32u, pack_le16u,
                                   pack_be32u, pack_be16u, in_bit_range,
@@ -681,7 +682,15 @@ class Assembler:
         size, index = self.repeat
         self.repeat = None
         blob = self.assembled_bytes[index:]
+        # the references of the block have to be resolved in each copy too
+        references = [(address, self.labels_addresses[address])
+                      for address in self.labels_addresses if address >= index]
         for i in range(0, size-1):
+            for address, data in references:
+                data = copy(data)
+                if data.relative != 0:
+                    data.relative += len(blob) * (i + 1)
+                self.labels_addresses[address + len(blob) * (i + 1)] = data
             self.append_assembled_bytes(blob)
 
     def directive_db_to_ascii(self, instr):
-- 
2.43.0


From 331cd373d6ffc28119ab70c0a987ec864c33a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 07/64] fix: close the previous section before moving to the
 origin of the next one

---
 necroassembler/assembler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index b431777..68d4e25 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -769,15 +769,15 @@ class Assembler:
         permissions = instr.tokens[2]
         if not all([True if letter in 'RWXE' else False for letter in permissions]):
             raise InvalidArgumentsForDirective(instr)
+        if self.current_section:
+            self.sections[self.current_section]['end'] = self.pc
+            self.sections[self.current_section]['size'] = len(
+                self.assembled_bytes) - self.sections[self.current_section]['offset']
         if len(instr.tokens) == 4:
             new_org_start = self.parse_integer(instr.tokens[3], 64, False)
             if new_org_start is None:
                 raise InvalidArgumentsForDirective(instr)
             self.change_org(new_org_start, 0)
-        if self.current_section:
-            self.sections[self.current_section]['end'] = self.pc
-            self.sections[self.current_section]['size'] = len(
-                self.assembled_bytes) - self.sections[self.current_section]['offset']
         self.current_section = name
         self.sections[self.current_section] = {
             'start': self.pc, 'offset': len(self.assembled_bytes), 'permissions': permissions}
-- 
2.43.0


From ce74a2d4174e9acadaff2a8e488834f0e1dca8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 08/64] fix: run the directives of a macro when it is invoked,
 not while it is recorded

---
 necroassembler/statements.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 68299cb..046529a 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -121,11 +121,17 @@ class Label(Statement):
 
 class Directive(Statement):
     def assemble(self, assembler):
-        # skip directive for defines substitution
-        substitute_with_dict(self.tokens, assembler.defines, 1)
         key = self.tokens[0][1:]
         if not assembler.case_sensitive:
             key = key.upper()
+
+        # the directives of a macro are executed when it is invoked
+        if assembler.macro_recording is not None and key.upper() not in ('MACRO', 'ENDMACRO'):
+            assembler.macro_recording.add_instruction(self)
+            return
+
+        # skip directive for defines substitution
+        substitute_with_dict(self.tokens, assembler.defines, 1)
         if not key in assembler.directives:
             raise UnknownDirective(self)
         assembler.directives[key](self)
-- 
2.43.0


From c345d2cde1f06743783fd9bd0b61b58d02fa5f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 09/64] fix: let .define give a new value to a name that is
 already defined

---
 necroassembler/statements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 046529a..79f6dbe 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -130,8 +130,9 @@ class Directive(Statement):
             assembler.macro_recording.add_instruction(self)
             return
 
-        # skip directive for defines substitution
-        substitute_with_dict(self.tokens, assembler.defines, 1)
+        # skip directive (and the name of a define) for defines substitution
+        substitute_with_dict(self.tokens, assembler.defines,
+                             2 if key.upper() == 'DEFINE' else 1)
         if not key in assembler.directives:
             raise UnknownDirective(self)
         assembler.directives[key](self)
-- 
2.43.0


From d0eaefa7050cc11210f7cc6fc87318dbcc1c8a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 10/64] fix: do not substitute defines and macro arguments
 inside strings and chars

---
 necroassembler/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/utils.py b/necroassembler/utils.py
index 9242d22..b0ee7c8 100644
--- a/necroassembler/utils.py
+++ b/necroassembler/utils.py
@@ -144,6 +144,9 @@ def is_valid_name(name):
 def substitute_with_dict(tokens, _dict, start):
     for i in range(start, len(tokens)):
         name = tokens[i]
+        # the text of strings and chars is never a name
+        if name[:1] in ('"', '\''):
+            continue
         # simple case first
         if name in _dict:
             tokens[i] = _dict[name]
-- 
2.43.0


From 0184050c3093d038778d00b89c6bf1d85baa4159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 11/64] fix: refuse a string or a char that is never closed
 instead of dropping the code after it

---
 necroassembler/tokenizer.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index bb2b5d0..e0e3fb8 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -10,6 +10,14 @@ class InvalidLabel(Exception):
             'invalid label at line {0}'.format(tokenizer.line))
 
 
+class UnterminatedLiteral(Exception):
+    '''Raised when a string (or a char) is still open at the end of the code'''
+
+    def __init__(self, tokenizer):
+        super().__init__(
+            'unterminated string or char, open at line {0}'.format(tokenizer.literal_line))
+
+
 class Tokenizer:
     '''Builds a list of tokenized statements from assembly source code'''
 
@@ -20,6 +28,7 @@ class Tokenizer:
         self.tokens = []
         self.case_sensitive = case_sensitive
         self.line = 1
+        self.literal_line = 1
         self.context = context
 
     def step(self, char):
@@ -101,12 +110,14 @@ class Tokenizer:
         if self.current_token:
             self.tokens.append(self.current_token)
         self.current_token = ''
+        self.literal_line = self.line
         self.state = self._state_string
 
     def _token_char(self):
         if self.current_token:
             self.tokens.append(self.current_token)
         self.current_token = ''
+        self.literal_line = self.line
         self.state = self._state_char
 
     def _state_token(self, char):
@@ -142,3 +153,5 @@ class Tokenizer:
             self.step(byte)
             if byte == '\n':
                 self.line += 1
+        if self.state not in (self._state_token, self._state_comment):
+            raise UnterminatedLiteral(self)
-- 
2.43.0


From b02255ed9d193e9c1549e00e70b3b17e0fe8646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 12/64] fix: refuse labels out of range in .db_to_ascii and
 .dw_to_ascii

---
 necroassembler/assembler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 68d4e25..069f3a2 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -565,6 +565,8 @@ class Assembler:
 
     def directive_dw_to_ascii(self, instr):
         def dw_to_str(address, true_address):
+            if not in_bit_range(true_address, 16):
+                raise NotInBitRange(true_address, 16)
             blob = format(true_address, '05d').encode('ascii')
             for b in blob:
                 self.assembled_bytes[address] = b
@@ -695,6 +697,8 @@ class Assembler:
 
     def directive_db_to_ascii(self, instr):
         def db_to_str(address, true_address):
+            if not in_bit_range(true_address, 8):
+                raise NotInBitRange(true_address, 8)
             blob = format(true_address, '03d').encode('ascii')
             for b in blob:
                 self.assembled_bytes[address] = b
-- 
2.43.0


From b02b1738ba509d1000ca97539c2dd89acf91f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 13/64] fix: refuse an invalid argument of .log

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 069f3a2..8035bb0 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -596,7 +596,7 @@ class Assembler:
             elif instr.tokens[1].upper() == 'OFF':
                 self.log = False
             else:
-                InvalidArgumentsForDirective()
+                raise InvalidArgumentsForDirective(instr)
         else:
             self.log = True
 
-- 
2.43.0


From 1ee83e714010c4547bdd4a095e486f7320a73053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:29 +0000
Subject: [PATCH 14/64] fix: export ELF symbols with their offset in the
 section they belong to

---
 necroassembler/linker.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index b4c6346..a30e0d5 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -61,6 +61,11 @@ class ELF:
     def _build_symtab_section(self, name_offset, offset, data, link):
         return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 0, 0, 16 if self.bits == 32 else 24)
 
+    def _symbol_value(self, assembler, symbol_data):
+        # in a relocatable object the value is the offset from the start of the section
+        return assembler.get_label_absolute_address(symbol_data) - \
+            assembler.sections[symbol_data['section']]['start']
+
     def resolve_unknown_symbol(self, assembler, address, symbol_data):
         self.relocations[address] = symbol_data
         return 0
@@ -109,12 +114,12 @@ class ELF:
                 continue
             if self.bits == 32:
                 symtab += pack(self.endianess_prefix + 'IIIBBH',
-                               symbol_data['elf_string_offset'], symbol_data['base'], 0,
+                               symbol_data['elf_string_offset'], self._symbol_value(assembler, symbol_data), 0,
                                0x10, 0, assembler.sections[symbol_data['section']]['elf_section_index'] + 1)
             if self.bits == 64:
                 symtab += pack(self.endianess_prefix + 'IBBHQQ',
                                symbol_data['elf_string_offset'], 0x10, 0,
-                               assembler.sections[symbol_data['section']]['elf_section_index'] + 1, symbol_data['base'], 0)
+                               assembler.sections[symbol_data['section']]['elf_section_index'] + 1, self._symbol_value(assembler, symbol_data), 0)
 
         code_size = len(assembler.assembled_bytes)
 
-- 
2.43.0


From b65aba868113145bf3b844fe96cbda038a68b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:31 +0000
Subject: [PATCH 15/64] fix: start the ELF symbol table with the undefined
 symbol

---
 necroassembler/linker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index a30e0d5..fe1d70d 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -59,7 +59,7 @@ class ELF:
         return pack(self.section_pack_format, name_offset, 0x03, 0x20, 0, offset, len(data), 0, 0, 0, 0)
 
     def _build_symtab_section(self, name_offset, offset, data, link):
-        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 0, 0, 16 if self.bits == 32 else 24)
+        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 1, 0, 16 if self.bits == 32 else 24)
 
     def _symbol_value(self, assembler, symbol_data):
         # in a relocatable object the value is the offset from the start of the section
@@ -108,7 +108,8 @@ class ELF:
             section_data['elf_section_index'] = section_index
             sections += self._build_section(section_data)
 
-        symtab = b''
+        # the first symbol is always the undefined one
+        symtab = bytes(16 if self.bits == 32 else 24)
         for symbol_name, symbol_data in assembler.labels.items():
             if symbol_name not in assembler.exports:
                 continue
-- 
2.43.0


From b45ab9ffa0b047c94ac68e86df97222d6cddddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 16/64] fix: write the number of PRG and CHR roms in the right
 bytes of the iNES header

---
 necroassembler/platforms/nes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/platforms/nes.py b/necroassembler/platforms/nes.py
index 85f7c9a..d5f3405 100644
--- a/necroassembler/platforms/nes.py
+++ b/necroassembler/platforms/nes.py
@@ -69,11 +69,11 @@ class AssemblerNES(AssemblerMOS6502):
 
     @directive('cartridge_prg_roms')
     def _set_cartridge_title(self, instr):
-        self._cartridge_fill(instr, 0x05, 1)
+        self._cartridge_fill(instr, 0x04, 1)
 
     @directive('cartridge_chr_roms')
     def _set_cartridge_license(self, instr):
-        self._cartridge_fill(instr, 0x06, 1)
+        self._cartridge_fill(instr, 0x05, 1)
 
     @directive('chr_pattern_table')
     def _build_chr_pattern_table(self, instr):
-- 
2.43.0


From 6bc8f342595cd2fea4d799c0f268eaae6c946d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 17/64] fix: write the initial stack pointer in its field of
 the PS-X EXE header

---
 necroassembler/platforms/psx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/necroassembler/platforms/psx.py b/necroassembler/platforms/psx.py
index 85dde68..fdb170e 100644
--- a/necroassembler/platforms/psx.py
+++ b/necroassembler/platforms/psx.py
@@ -24,6 +24,7 @@ def main():
         output.write(b'\xFF\xFF\xFF\xFF')  # gp
         output.write(b'\x00\x00\x01\x80')  # text 0x80010000
         output.write(pack_le32u(len(asm.assembled_bytes)))
+        output.seek(0x30)
         output.write(b'\xF0\xFF\x1F\x80')  # stack ptr
         output.seek(0x4C)
         output.write(
-- 
2.43.0


From 4e17f7d55e6809b69cc9e3442cf9b4abfbc78d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 18/64] fix: compute the Genesis checksum of roms with an odd
 size

---
 necroassembler/platforms/genesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/platforms/genesis.py b/necroassembler/platforms/genesis.py
index 938991f..f06d90d 100644
--- a/necroassembler/platforms/genesis.py
+++ b/necroassembler/platforms/genesis.py
@@ -13,7 +13,8 @@ def main():
     header_checksum = 0
     for i in range(0x200, len(asm.assembled_bytes), 2):
         high = asm.assembled_bytes[i]
-        low = asm.assembled_bytes[i+1]
+        # the last byte of an odd sized rom is paired with 0
+        low = asm.assembled_bytes[i+1] if i + 1 < len(asm.assembled_bytes) else 0
         header_checksum += (high << 8) | low
     asm.assembled_bytes[0x18e] = (header_checksum >> 8) & 0xFF
     asm.assembled_bytes[0x18f] = header_checksum & 0xFF
-- 
2.43.0


From afa86f7f8cb445061cef0f255a7722fe7a031dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 19/64] fix: do not add the old value of the Gameboy global
 checksum to the new one

---
 necroassembler/platforms/gameboy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 50aae17..f4451f9 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -164,8 +164,10 @@ class AssemblerGameboy(AssemblerLR35902):
 
         # global checksum
         global_checksum = 0
-        for byte in self.assembled_bytes:
-            global_checksum += int(byte)
+        for i, byte in enumerate(self.assembled_bytes):
+            # the checksum does not include itself
+            if i not in (0x14e, 0x14f):
+                global_checksum += int(byte)
 
         self.assembled_bytes[0x14e] = (global_checksum >> 8) & 0xFF
         self.assembled_bytes[0x14f] = global_checksum & 0xFF
-- 
2.43.0


From 36433f0c747a680fb5faef9e45a0a85ff942e9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 20/64] fix: mos6502 branches ignored surplus operands

---
 necroassembler/cpu/mos6502.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/necroassembler/cpu/mos6502.py b/necroassembler/cpu/mos6502.py
index 443ca53..3a4b07f 100644
--- a/necroassembler/cpu/mos6502.py
+++ b/necroassembler/cpu/mos6502.py
@@ -84,6 +84,8 @@ class AssemblerMOS6502(Assembler):
         self.register_instruction('PLP', b'\x28')
 
     def _manage_branching(self, instr, code):
+        if not instr.match(ADDRESS):
+            raise InvalidMode()
         arg = instr.tokens[1]
         address = self.parse_integer_or_label(
             label=arg, bits_size=8,
-- 
2.43.0


From d24e5d094cd9488f475307ea9aece6073f097795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 21/64] fix: a string pattern of Instruction.match also matched
 each of its characters

---
 necroassembler/cpu/lr35902.py | 2 +-
 necroassembler/statements.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 4077be7..3ea6058 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -100,7 +100,7 @@ class AssemblerLR35902(Assembler):
                 condition, = instr.apply(self._reg_name)
                 return pack_byte(kwargs[condition])
 
-            if instr.match('(', '$FF00+C', ')', 'A') or instr.match('[', '$FF00+C', ']', 'A'):
+            if instr.match('(', ('$FF00+C', 'C'), ')', 'A') or instr.match('[', ('$FF00+C', 'C'), ']', 'A'):
                 return pack_byte(kwargs['ind_c_a'])
 
             if instr.match('(', LDH, ')', 'A') or instr.match('[', LDH, ']', 'A'):
diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 79f6dbe..f412096 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -71,7 +71,7 @@ class Instruction(Statement):
                 if isinstance(pattern, str):
                     if self.tokens[index + start].upper() == pattern.upper():
                         continue
-                if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
+                elif any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False
         return True
@@ -89,7 +89,7 @@ class Instruction(Statement):
                 if isinstance(pattern, str):
                     if self.tokens[index + start].upper() == pattern.upper():
                         continue
-                if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
+                elif any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False, None
         return True, start+index+1
-- 
2.43.0


From 4f05c134e61a93f7876903be45e169998f7e0aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 22/64] fix: LD x,SP+e of the LR35902 ignored its destination
 and further operands

---
 necroassembler/cpu/lr35902.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 3ea6058..8be2e8b 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -206,11 +206,11 @@ class AssemblerLR35902(Assembler):
 
     @opcode('LD')
     def _ld(self, instr):
-        if len(instr.tokens) > 2:
+        if instr.match('HL', VALUE):
             value = None
-            if instr.tokens[2].startswith('SP+'):
+            if instr.tokens[2].upper().startswith('SP+'):
                 value = self._rel8(instr.tokens[2][3:])
-            elif instr.tokens[2].startswith('SP-'):
+            elif instr.tokens[2].upper().startswith('SP-'):
                 value = self._rel8(instr.tokens[2][2:])
             if value is not None:
                 return pack_byte(0xF8) + value
-- 
2.43.0


From 1002c654f19dc31288b65aecbae9236b83ba4ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 23/64] fix: LD A,(IX+d) and LD (IX+d),A of the Z80 were taken
 for absolute loads

---
 necroassembler/cpu/z80.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 228e316..6b3fb94 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1288,7 +1288,8 @@ class Z80OpCode:
         self.add_variant(code, args)
 
     def _is_value(self, arg):
-        return arg.upper() not in REGS8+REGS16
+        return not (arg.upper() in REGS8+REGS16 or
+                    self._is_index_x(arg) or self._is_index_y(arg))
 
     def _is_index_x(self, arg):
         return (
-- 
2.43.0


From c283d0b1ff9a38a51d804512d39afd304bcf4e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 24/64] fix: LD (IX+d),n of the Z80 lost its displacement

---
 necroassembler/cpu/z80.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 6b3fb94..e567c8b 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1350,30 +1350,30 @@ class Z80OpCode:
 
     def add_variant(self, code, args):
         sanitized_args = []
-        hook = None
+        hooks = []
         for index, arg in enumerate(args):
             if arg == 'nn':
                 sanitized_args.append(self._is_value)
-                hook = self._build_nn, index
+                hooks.append((self._build_nn, index))
             elif arg == 'n':
                 sanitized_args.append(self._is_value)
-                hook = self._build_n, index
+                hooks.append((self._build_n, index))
             elif arg == 'e':
                 sanitized_args.append(self._is_value)
-                hook = self._build_e, index
+                hooks.append((self._build_e, index))
             elif arg == 'd':
                 sanitized_args.append(self._is_value)
-                hook = self._build_d, index
+                hooks.append((self._build_d, index))
             elif arg == 'IX+d':
                 sanitized_args.append(self._is_index_x)
-                hook = self._build_index, index
+                hooks.append((self._build_index, index))
             elif arg == 'IY+d':
                 sanitized_args.append(self._is_index_y)
-                hook = self._build_index, index
+                hooks.append((self._build_index, index))
             else:
                 sanitized_args.append(arg)
 
-        self.variants.append((code, sanitized_args, hook))
+        self.variants.append((code, sanitized_args, hooks))
 
     def __call__(self, instr):
         for variant in self.variants:
@@ -1385,8 +1385,7 @@ class Z80OpCode:
                 else:
                     base += pack_byte(code >> 8)
                     base += pack_byte(code & 0xFF)
-                if variant[2] is not None:
-                    hook, index = variant[2]
+                for hook, index in variant[2]:
                     base += hook(base, instr.tokens[index+1])
                 for suffix in variant[0][1:]:
                     base += pack_byte(suffix)
-- 
2.43.0


From 478f867ac23703e96f14d298d20073469f99f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 25/64] fix: div, mult, nor, or, sub and xor of the MIPS always
 failed

---
 necroassembler/cpu/mips32.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 5d4b022..ee12bc9 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -191,27 +191,27 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('div')
     def _div(self, instr):
-        return self._div_mult(0b011010, instr)
+        return self._div_mult(instr, 0b011010)
 
     @opcode('divu')
     def _divu(self, instr):
-        return self._div_mult(0b011011, instr)
+        return self._div_mult(instr, 0b011011)
 
     @opcode('mult')
     def _mult(self, instr):
-        return self._div_mult(0b011000, instr)
+        return self._div_mult(instr, 0b011000)
 
     @opcode('multu')
     def _multu(self, instr):
-        return self._div_mult(0b011001, instr)
+        return self._div_mult(instr, 0b011001)
 
     @opcode('nor')
     def _nor(self, instr):
-        return self._arith_log(0b100111, instr)
+        return self._arith_log(instr, 0b100111)
 
     @opcode('or')
     def _or(self, instr):
-        return self._arith_log(0b100101, instr)
+        return self._arith_log(instr, 0b100101)
 
     @opcode('ori')
     def _ori(self, instr):
@@ -243,15 +243,15 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sub')
     def _sub(self, instr):
-        return self._arith_log(0b100010, instr)
+        return self._arith_log(instr, 0b100010)
 
     @opcode('subu')
     def _subu(self, instr):
-        return self._arith_log(0b100011, instr)
+        return self._arith_log(instr, 0b100011)
 
     @opcode('xor')
     def _xor(self, instr):
-        return self._arith_log(0b100110, instr)
+        return self._arith_log(instr, 0b100110)
 
     @opcode('xori')
     def _xori(self, instr):
-- 
2.43.0


From 2b07d105380912442e44c9cd36bf3819d825e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 26/64] fix: sltu and sltiu of the MIPS had the opcodes of
 other instructions

---
 necroassembler/cpu/mips32.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index ee12bc9..49269fe 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -275,7 +275,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sltu')
     def _sltu(self, instr):
-        return self._arith_log(instr, 0b101001)
+        return self._arith_log(instr, 0b101011)
 
     @opcode('slti')
     def _slti(self, instr):
@@ -283,7 +283,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sltiu')
     def _sltiu(self, instr):
-        return self._arith_log_i(instr, 0b001001, False)
+        return self._arith_log_i(instr, 0b001011, False)
 
     @opcode('beq')
     def _beq(self, instr):
-- 
2.43.0


From 41a9eba0ab670cbe2c893ddc65937ae83587fb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 27/64] fix: jalr of the MIPS did not store the return address
 in $ra

---
 necroassembler/cpu/mips32.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 49269fe..332d0e6 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -311,7 +311,10 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('jalr')
     def _jalr(self, instr):
-        return self._jump_r(instr, 0b001001)
+        if instr.match(REGS):
+            rs, = instr.apply(_reg)
+            # the return address goes to $31
+            return self._build_opcode(0, ((25, 21), rs), ((15, 11), 31), ((5, 0), 0b001001))
 
     @opcode('jr')
     def _jr(self, instr):
-- 
2.43.0


From f3a0bec5313b2aa8f906a0aeb256b4931ce46e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 28/64] fix: andi, ori and xori of the MIPS refused decimal
 values above 32767

---
 necroassembler/cpu/mips32.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 332d0e6..5d4414c 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -187,7 +187,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('andi')
     def _andi(self, instr):
-        return self._arith_log_i(instr, 0b001100, True)
+        return self._arith_log_i(instr, 0b001100, False)
 
     @opcode('div')
     def _div(self, instr):
@@ -215,7 +215,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('ori')
     def _ori(self, instr):
-        return self._arith_log_i(instr, 0b001101, True)
+        return self._arith_log_i(instr, 0b001101, False)
 
     @opcode('sll')
     def _sll(self, instr):
@@ -255,7 +255,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('xori')
     def _xori(self, instr):
-        return self._arith_log_i(instr, 0b001110, True)
+        return self._arith_log_i(instr, 0b001110, False)
 
     @opcode('lui')
     def _lui(self, instr):
-- 
2.43.0


From 2622acb26ebb163c77fbf66d044eeed37fcba492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 29/64] fix: numeric targets of MIPS jumps had to be below
 0x10000000

---
 necroassembler/cpu/mips32.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 5d4414c..3af1aea 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -53,12 +53,13 @@ class AssemblerMIPS32(Assembler):
         return value
 
     def _abs_label(self, token):
-        return self.parse_integer_or_label(label=token,
-                                           bits=(25, 0),
-                                           bits_size=32,
-                                           filter=lambda x: (
-                                               x & 0x0fffffff) >> 2,
-                                           size=4) >> 2
+        value = self.parse_integer_or_label(label=token,
+                                            bits=(25, 0),
+                                            bits_size=32,
+                                            filter=lambda x: (
+                                                x & 0x0fffffff) >> 2,
+                                            size=4)
+        return (value & 0x0fffffff) >> 2
 
     def _rel_label(self, token):
         return self.parse_integer_or_label(label=token,
-- 
2.43.0


From 316e041a3ac0343ceeb39f0f3cb842ec82ed83cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 30/64] fix: branches of the MIPS to unaligned labels went
 elsewhere

---
 necroassembler/cpu/mips32.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 3af1aea..79f2cc8 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -67,6 +67,7 @@ class AssemblerMIPS32(Assembler):
                                            bits=(15, 0),
                                            filter=lambda x: x >> 2,
                                            relative=self.pc + 4,
+                                           alignment=4,
                                            size=4) >> 2
 
     def _immediate32(self, high):
-- 
2.43.0


From b7fab0ad7401215b95ee3fbcd951360c764683fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 31/64] fix: STR Rd,[Rb,#imm] of the Thumb was encoded as a
 load

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 832261a..cc2426c 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -348,7 +348,7 @@ class AssemblerThumb(Assembler):
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
                 low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+            return self._build_opcode(0b0110000000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('STRB')
     def _strb(self, instr):
-- 
2.43.0


From fc531c049bb29c6972ee77477765462464c442e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 32/64] fix: LDRH Rd,[Rb,Ro] of the Thumb was encoded as a
 shift

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index cc2426c..386206e 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -317,7 +317,7 @@ class AssemblerThumb(Assembler):
         if instr.match(LOW_REGS, '[', LOW_REGS, LOW_REGS, ']'):
             rd, rb, ro = instr.apply(
                 low_reg, None, low_reg, low_reg, None)
-            return self._build_opcode(0b010110000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
+            return self._build_opcode(0b0101101000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-- 
2.43.0


From ab25b29095ecba8abc6617d4b49f3c5c6117487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 33/64] fix: the offset of LDRH Rd,[Rb,#imm] of the Thumb was
 doubled

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 386206e..c304a7f 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -322,7 +322,7 @@ class AssemblerThumb(Assembler):
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
                 low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b1000100000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
+            return self._build_opcode(0b1000100000000000, ((10, 6), imm >> 1), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('LDSB')
     def _ldsb(self, instr):
-- 
2.43.0


From dc492dc3b1ae14a78fade7b5cddca0cc97cc4e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 34/64] fix: ADD of the Thumb to PC and SP scaled its immediate
 wrongly or failed

---
 necroassembler/cpu/thumb.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index c304a7f..6d5200c 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -67,12 +67,18 @@ class AssemblerThumb(Assembler):
                                            alignment=alignment,
                                            relative=self.pc + 4)
 
-    def _imm(self, arg):
-        value = self.parse_integer(arg[1:], 8, False)
+    def _imm(self, arg, bits=8):
+        value = self.parse_integer(arg[1:], bits, False)
         if value is None:
             raise InvalideImmediateValue()
         return value
 
+    def _imm9(self, arg):
+        return self._imm(arg, 9)
+
+    def _imm10(self, arg):
+        return self._imm(arg, 10)
+
     def _word8(self, arg):
         return self.parse_integer_or_label(label=arg[1:],
                                            size=2,
@@ -164,14 +170,14 @@ class AssemblerThumb(Assembler):
             hd, hs = instr.apply(high_reg, high_reg)
             return self._build_opcode(0b0100010011000000, ((5, 3), hs), ((2, 0), hd))
         if instr.match(LOW_REGS, PC, IMMEDIATE):
-            rd, imm = instr.apply(low_reg, None, self._imm)
-            return self._build_opcode(0b1010000000000000, ((10, 8), rd), ((7, 0), imm))
+            rd, imm = instr.apply(low_reg, None, self._imm10)
+            return self._build_opcode(0b1010000000000000, ((10, 8), rd), ((7, 0), imm >> 2))
         if instr.match(LOW_REGS, SP, IMMEDIATE):
-            rd, imm = instr.apply(low_reg, None, self._imm)
-            return self._build_opcode(0b1010100000000000, ((10, 8), rd), ((7, 0), imm))
+            rd, imm = instr.apply(low_reg, None, self._imm10)
+            return self._build_opcode(0b1010100000000000, ((10, 8), rd), ((7, 0), imm >> 2))
         if instr.match(SP, IMMEDIATE):
-            imm, = instr.apply(None, self._imm)
-            return self._build_opcode(0b1011000000000000, ((7, 0), imm >> 1, True))
+            imm, = instr.apply(None, self._imm9)
+            return self._build_opcode(0b1011000000000000, ((6, 0), imm >> 2))
 
     @opcode('SUB')
     def _sub(self, instr):
-- 
2.43.0


From 5ea07969f30ef23bb0ccbd48aff604b1a47488ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 35/64] fix: LDR Rd,[PC,#imm] and [SP,#imm] of the Thumb
 reached 124 bytes only and backwards labels became forward ones

---
 necroassembler/cpu/thumb.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 6d5200c..a335e1c 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -1,7 +1,8 @@
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits_le16u, pack_le16u, pack_bit
 from necroassembler.exceptions import (
-    AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, NotInBitRange)
+    AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, NotInBitRange,
+    OnlyForwardAddressesAllowed)
 
 LOW_REGS = ('r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6', 'r7')
 HIGH_REGS_TRUE = ('r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15')
@@ -80,14 +81,25 @@ class AssemblerThumb(Assembler):
         return self._imm(arg, 10)
 
     def _word8(self, arg):
-        return self.parse_integer_or_label(label=arg[1:],
-                                           size=2,
-                                           bits_size=8,
-                                           bits=(7, 0),
-                                           alignment=4,
-                                           filter=lambda x: x >> 2,
-                                           # bit 1 of pc must be turned off
-                                           relative=(self.pc + 4) & ~(0b10))
+        value = self.parse_integer(arg[1:], 10, False)
+        if value is not None:
+            return value
+
+        def forward_words(distance):
+            if distance < 0:
+                raise OnlyForwardAddressesAllowed(arg[1:], distance)
+            return distance >> 2
+
+        self.add_label_translation(label=arg[1:],
+                                   size=2,
+                                   # one more for the sign
+                                   bits_size=11,
+                                   bits=(7, 0),
+                                   alignment=4,
+                                   filter=forward_words,
+                                   # bit 1 of pc must be turned off
+                                   relative=(self.pc + 4) & ~(0b10))
+        return 0
 
     def _conditional_branch(self, instr, cond):
         if instr.match(LABEL):
@@ -303,7 +315,7 @@ class AssemblerThumb(Assembler):
             return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', SP, IMMEDIATE, ']'):
-            rd, imm = instr.apply(low_reg, None, None, self._word8, None)
+            rd, imm = instr.apply(low_reg, None, None, self._imm10, None)
             return self._build_opcode(0b1001100000000000, ((10, 8), rd), ((7, 0), imm >> 2))
 
     @opcode('LDRB')
-- 
2.43.0


From c84d2bc6b5cf65928e403e18b93fc7b878f9f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 36/64] fix: BL 0 of the Thumb was taken for a label

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index a335e1c..b3f1ddf 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -387,7 +387,7 @@ class AssemblerThumb(Assembler):
         offset = instr.tokens[1]
 
         address = self.parse_integer(offset, 23, signed=True)
-        if address:
+        if address is not None:
             address >>= 1
             address0 = address >> 11
             address1 = address & 0x7ff
-- 
2.43.0


From 98611959353dbaa33c9efcff97f7c860114059bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 37/64] fix: PUSH of the Thumb accepted register names in lower
 case only

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index b3f1ddf..b744d7e 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -115,7 +115,7 @@ class AssemblerThumb(Assembler):
 
         rlist = 0
         for token in tokens:
-            if token in LOW_REGS:
+            if token.lower() in LOW_REGS:
                 bit_to_set = low_reg(token)
                 rlist = pack_bit(rlist, (bit_to_set, 1))
                 continue
-- 
2.43.0


From 028fa9ff4d1f0a035db52c7365d9430267465501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 38/64] fix: r0 of the PowerPC was refused

---
 necroassembler/cpu/powerpc.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index e2f4e1a..74ea8e7 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -9,8 +9,6 @@ def _greg(token, assembler=None, bits=None):
     reg = token.lower()
     if assembler is not None:
         return int(token[1:])
-    if reg == 'r0':
-        return False
     return reg in GREGS
 
 
-- 
2.43.0


From b3f174b8ea000bb3410688ea43217f368c48af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 39/64] fix: the second field of MCRFS was encoded in the wrong
 bits

---
 necroassembler/cpu/powerpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 74ea8e7..5eed65e 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -696,7 +696,7 @@ OPCODES_TABLE = [
     [0xfc00048e, "mffs",    [[21, 5, _freg]]],
     [0xfc00048f, "mffs.",   [[21, 5, _freg]]],
     [0xfc000080, "mcrfs",   [[21, 5, CRFONLY], [18, 5, _num]]],
-    [0xfc000080, "mcrfs",   [[23, 3, _num],  [18, 5, _num]]],
+    [0xfc000080, "mcrfs",   [[23, 3, _num],  [18, 3, _num]]],
     [0xfc00010c, "mtfsfi",  [[23, 3, _num],  [12, 4, _num]]],
     [0xfc00010d, "mtfsfi.", [[23, 3, _num],  [12, 4, _num]]],
     [0xfc00058e, "mtfsf",   [[17, 8, _num],  [11, 5, _freg]]],
-- 
2.43.0


From f25800129de73a3a05f82f3e58cd1e6fcc1c9f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 40/64] fix: PowerPC instructions with several forms were
 encoded with the opcode of the first

---
 necroassembler/cpu/powerpc.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 5eed65e..6f8d108 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1322,23 +1322,22 @@ OPCODES_TABLE = [
 
 class PowerPCOPCode:
 
-    def __init__(self, assembler, name, base):
+    def __init__(self, assembler, name):
         self.conditions = []
         self.assembler = assembler
         self.name = name
-        self.base = base
 
-    def add_condition(self, condition):
-        self.conditions.append(condition)
+    def add_condition(self, condition, base):
+        self.conditions.append((condition, base))
 
     def __call__(self, instr):
-        for condition in self.conditions:
+        for condition, base in self.conditions:
             if condition is None:
                 if len(instr.tokens) == 1:
-                    return pack_be32u(self.base)
+                    return pack_be32u(base)
             elif instr.match(*[item[2] for item in condition]):
                 return pack_be32u(
-                    pack_bits(self.base, *[
+                    pack_bits(base, *[
                         ((item[0] + item[1] - 1, item[0]), item[2](
                             instr.tokens[index+1], self.assembler, (item[0] + item[1] - 1, item[0]))
                          ) for index, item in enumerate(condition)
@@ -1358,17 +1357,16 @@ class AssemblerPowerPC(Assembler):
             # already defined ?
             if name.upper() in self.instructions:
                 if len(entry) > 2:
-                    self.instructions[name.upper()].add_condition(entry[2])
+                    self.instructions[name.upper()].add_condition(entry[2], entry[0])
                 else:
-                    self.instructions[name.upper()].add_condition(None)
+                    self.instructions[name.upper()].add_condition(None, entry[0])
                 continue
 
-            base = entry[0]
-            powerpc_opcode = PowerPCOPCode(self, name, base)
+            powerpc_opcode = PowerPCOPCode(self, name)
             if len(entry) > 2:
-                powerpc_opcode.add_condition(entry[2])
+                powerpc_opcode.add_condition(entry[2], entry[0])
             else:
-                powerpc_opcode.add_condition(None)
+                powerpc_opcode.add_condition(None, entry[0])
             self.register_instruction(entry[1], powerpc_opcode)
 
 
-- 
2.43.0


From 4809725fd8f10fc06f63f74a56393aff21a08b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 41/64] fix: PowerPC forms with unsupported operands hid the
 other ones

---
 necroassembler/cpu/powerpc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 6f8d108..594f087 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1335,6 +1335,9 @@ class PowerPCOPCode:
             if condition is None:
                 if len(instr.tokens) == 1:
                     return pack_be32u(base)
+            elif None in [item[2] for item in condition]:
+                # operands of a kind not supported yet
+                continue
             elif instr.match(*[item[2] for item in condition]):
                 return pack_be32u(
                     pack_bits(base, *[
-- 
2.43.0


From 5e611e407e526b7d521624cb3c72717976662923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 42/64] fix: range, alignment and numeric targets of the
 PowerPC branches

---
 necroassembler/cpu/powerpc.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 594f087..53d44c9 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -32,25 +32,27 @@ def _freg(token, assembler=None, bits=None):
 
 def _pcrel(token, assembler=None, bits=None):
     if assembler is not None:
+        # the two low bits of the target are not encoded
         return assembler.parse_integer_or_label(token,
                                                 size=4,
-                                                bits_size=(
-                                                    bits[0] - bits[1] + 1),
+                                                bits_size=bits[0] + 1,
+                                                alignment=4,
                                                 bits=bits,
                                                 filter=lambda x: x >> 2,
-                                                relative=assembler.pc)
+                                                relative=assembler.pc) >> 2
 
     return token not in GREGS+FREGS
 
 
 def _baddr(token, assembler=None, bits=None):
     if assembler is not None:
+        # the two low bits of the target are not encoded
         return assembler.parse_integer_or_label(token,
                                                 size=4,
-                                                bits_size=(
-                                                    bits[0] - bits[1] + 1),
+                                                bits_size=bits[0] + 1,
+                                                alignment=4,
                                                 bits=bits,
-                                                filter=lambda x: x >> 2)
+                                                filter=lambda x: x >> 2) >> 2
     return token not in GREGS+FREGS
 
 
-- 
2.43.0


From c90b2f10b76a7bcef9acee23aab22bc4943e55a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 43/64] fix: upper case index registers of the 68000 were
 refused

---
 necroassembler/cpu/mc68000.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 3e34ef5..446875a 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -36,7 +36,7 @@ def _is_indexed_reg(token):
         return token.lower()[0:-2] in D_REGS+A_REGS
     if token.lower().endswith('.l'):
         return token.lower()[0:-2] in D_REGS+A_REGS
-    return token in D_REGS+A_REGS
+    return token.lower() in D_REGS+A_REGS
 
 
 IMMEDIATE = _is_immediate
-- 
2.43.0


From c3e80173e4bacb222c132fba99650f4ce276219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 44/64] fix: MOVE.B of an address register was accepted

---
 necroassembler/cpu/mc68000.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 446875a..c7adbce 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -260,7 +260,9 @@ class AssemblerMC68000(Assembler):
     @opcode('move', 'move.w', 'move.b', 'move.l')
     def _move(self, instr):
         op_size, s = _s_dark(instr.tokens[0])
-        next_index, src_m, src_xn, src_data = self._mode(instr, 1, 0, op_size)
+        # no access to the bytes of an address register
+        next_index, src_m, src_xn, src_data = self._mode(
+            instr, 1, 0, op_size, blacklist=('An',) if op_size == 1 else ())
         # convert to MOVEA
         if op_size in (2, 4) and instr.match(A_REGS, start=next_index):
             return self._build_opcode(0b0000000001000000, ((13, 12), s), ((11, 9), _reg(instr.tokens[next_index])), ((5, 3), src_m), ((2, 0), src_xn)) + src_data
-- 
2.43.0


From d71cf658e647c2b3261c4e5da2175097efc1fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 45/64] fix: the 68000 ignored everything after the last
 operand

---
 necroassembler/cpu/mc68000.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index c7adbce..f7fe659 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -248,6 +248,14 @@ class AssemblerMC68000(Assembler):
 
         raise InvalidMode(instr)
 
+    def _last_mode(self, instr, start_index, offset, size, blacklist=()):
+        index, m, xn, data = self._mode(
+            instr, start_index, offset, size, blacklist)
+        # nothing can follow the last operand
+        if index != len(instr.tokens):
+            raise InvalidMode(instr)
+        return index, m, xn, data
+
     def _build_opcode(self, base, *args):
         return pack_bits_be16u(base, *args)
 
@@ -266,7 +274,7 @@ class AssemblerMC68000(Assembler):
         # convert to MOVEA
         if op_size in (2, 4) and instr.match(A_REGS, start=next_index):
             return self._build_opcode(0b0000000001000000, ((13, 12), s), ((11, 9), _reg(instr.tokens[next_index])), ((5, 3), src_m), ((2, 0), src_xn)) + src_data
-        _, dst_m, dst_xn, dst_data = self._mode(
+        _, dst_m, dst_xn, dst_data = self._last_mode(
             instr, next_index, len(src_data), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
         return self._build_opcode(0b0000000000000000, ((13, 12), s), ((11, 9), dst_xn), ((8, 6), dst_m), ((5, 3), src_m), ((2, 0), src_xn)) + src_data + dst_data
 
@@ -289,7 +297,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000000000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -305,7 +313,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000001000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -315,7 +323,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000010000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -325,7 +333,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000011000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -341,7 +349,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000101000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -351,13 +359,13 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000110000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
     @opcode('jmp')
     def _jmp(self, instr):
-        _, src_m, src_xn, src_data = self._mode(
+        _, src_m, src_xn, src_data = self._last_mode(
             instr, 1, 0, 0, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
         return self._build_opcode(0b0100111011000000, ((5, 3), src_m), ((2, 0), src_xn)) + src_data
 
@@ -410,7 +418,7 @@ class AssemblerMC68000(Assembler):
 
     @opcode('jsr')
     def _jsr(self, instr):
-        _, src_m, src_xn, src_data = self._mode(
+        _, src_m, src_xn, src_data = self._last_mode(
             instr, 1, 0, 0, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
         return self._build_opcode(0b0100111010000000, ((5, 3), src_m), ((2, 0), src_xn)) + src_data
 
-- 
2.43.0


From 1b19b9fa255c8c3f173d099e0924a79cb9475a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 46/64] fix: DBT.W and DBF.W always failed

---
 necroassembler/cpu/mc68000.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index f7fe659..0d4c134 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -57,7 +57,7 @@ def _reg(token):
 def _cond(token):
     if token[0:2].upper() == 'RA':
         return 1
-    return CONDITIONS.index(token[0:2].upper())
+    return CONDITIONS.index(token.split('.')[0].upper())
 
 
 def _indexed_reg(token):
-- 
2.43.0


From 383c211dbde2ccd9dccbcb6713194a429bb27e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 47/64] fix: a short branch of the 68000 to the next
 instruction became a long one

---
 necroassembler/cpu/mc68000.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 0d4c134..db02d3e 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -8,6 +8,10 @@ class InvalidMode(AssemblerException):
     message = 'invalid 68000 mode'
 
 
+class InvalidShortBranch(AssemblerException):
+    message = 'a short branch cannot go to the next instruction'
+
+
 D_REGS = ('d0', 'd1', 'd2', 'd3', 'd4', 'd5', 'd6', 'd7')
 A_REGS = ('a0', 'a1', 'a2', 'a3', 'a4', 'a5', 'a6', 'a7')
 
@@ -100,6 +104,13 @@ def _s_middle(token):
     return 2, 0
 
 
+def _short_distance(distance):
+    # 0 in the opcode means that the distance is in the next word
+    if distance == 0:
+        raise InvalidShortBranch()
+    return distance
+
+
 class AssemblerMC68000(Assembler):
 
     hex_prefixes = ('$',)
@@ -390,7 +401,10 @@ class AssemblerMC68000(Assembler):
                                                     bits_size=8,
                                                     bits=(7, 0),
                                                     alignment=2,  # here is safe to check for alignment
+                                                    filter=_short_distance,
                                                     relative=self.pc+2)
+                if self.parse_integer(instr.tokens[1], 8, True) is not None:
+                    _short_distance(value)
                 return self._build_opcode(0b0110000000000000, ((11, 8), condition), ((7, 0), value))
             elif op_size == 2:
                 value = self.parse_integer_or_label(instr.tokens[1],
-- 
2.43.0


From aed9ef7660b96bddd7954bfcdeffa52fde2b60f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 48/64] fix: labels in memory operands of the 8086 were written
 over the modrm byte

---
 necroassembler/cpu/intel8086.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 44277ef..c8fb9c5 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -19,7 +19,8 @@ def _build_modrm(assembler, modrm):
             modrm['displacement'].lstrip('+'),
             size=2,
             bits_size=16,
-            offset=1,
+            # after the opcode and the modrm byte
+            offset=2,
             signed=True))
     return blob
 
@@ -299,7 +300,7 @@ def _Mp(instr, assembler, index, modrm):
             modrm['mod'] = 0
             modrm['rm'] = 6
             return 3, _build_modrm(assembler, modrm) + pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=2, bits_size=16, offset=1))
+                instr.tokens[index+1], size=2, bits_size=16, offset=2))
 
 
 def _Ap(instr, assembler, index, modrm):
-- 
2.43.0


From 35dfdae5069619e59fd744739f5e54cbb0c941b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 49/64] fix: the addresses of MOV AL and MOV to memory from AL
 were limited to a byte

---
 necroassembler/cpu/intel8086.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index c8fb9c5..6651d86 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -208,7 +208,7 @@ def _Ob(instr, assembler, index, modrm):
     if match(instr.tokens[index:index+3], '[', None, ']'):
         if instr.tokens[index+1].upper() not in REGS8 + REGS16 + SEGMENTS:
             return 3, pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=1, bits_size=8, offset=1))
+                instr.tokens[index+1], size=2, bits_size=16, offset=1))
 
 
 def _Ov(instr, assembler, index, modrm):
-- 
2.43.0


From 96b0c540000836858576f9e92ef40e93aed42d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 50/64] fix: [BP] of the 8086 was encoded as a direct address

---
 necroassembler/cpu/intel8086.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 6651d86..cff7188 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -38,8 +38,9 @@ def _get_modrm_mod(arg):
         return 0b00, 0b100, 1, None
     if match(arg, 'DI'):
         return 0b00, 0b101, 1, None
+    # without displacement 0b110 is a direct address
     if match(arg, 'BP'):
-        return 0b00, 0b110, 1, None
+        return 0b10, 0b110, 1, '0'
     if match(arg, 'BX'):
         return 0b00, 0b111, 1, None
     # displacement (16 bit only)
-- 
2.43.0


From b57209162328a59f52aef40affaf1074087aef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 51/64] fix: MOV of immediates to memory and POP to memory had
 no modrm byte

---
 necroassembler/cpu/intel8086.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index cff7188..e6cc9c4 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -63,6 +63,13 @@ def _get_modrm_mod(arg):
     raise InvalidOpCodeArguments()
 
 
+def _immediate_offset(modrm):
+    # an immediate follows the opcode, the modrm byte and the displacement
+    if 'mod' not in modrm:
+        return 1
+    return 2 if modrm.get('displacement') is None else 4
+
+
 def _Gb(instr, assembler, index, modrm):
     reg = instr.tokens[index].upper()
     if reg in REGS8:
@@ -184,13 +191,13 @@ def _SS(instr, assembler, index, modrm):
 def _Ib(instr, assembler, index, modrm):
     if instr.tokens[index].upper() not in REGS8 + REGS16 + SEGMENTS + ('[', ']'):
         return 1, pack_byte(assembler.parse_integer_or_label(
-            instr.tokens[index], size=1, bits_size=8, offset=1))
+            instr.tokens[index], size=1, bits_size=8, offset=_immediate_offset(modrm)))
 
 
 def _Iv(instr, assembler, index, modrm):
     if instr.tokens[index].upper() not in REGS8 + REGS16 + SEGMENTS + ('[', ']'):
         return 1, pack_le16u(assembler.parse_integer_or_label(
-            instr.tokens[index], size=2, bits_size=16, offset=1))
+            instr.tokens[index], size=2, bits_size=16, offset=_immediate_offset(modrm)))
 
 
 def _Jb(instr, assembler, index, modrm):
@@ -455,7 +462,7 @@ OPCODES_TABLE = (
     (0x8C, 'MOV', _Ev, _Sw),
     (0x8D, 'LEA', _Gv, _M),
     (0x8E, 'MOV', _Sw, _Ev),
-    (0x8F, 'POP', _Ev),
+    (0x8F00, 'POP', _Ev),
     (0x90, 'NOP'),
     (0x91, 'XCHG', _eCX, _eAX),
     (0x92, 'XCHG', _eDX, _eAX),
@@ -508,8 +515,8 @@ OPCODES_TABLE = (
     (0xC3, 'RET'),
     (0xC4, 'LES', _Gv, _Mp),
     (0xC5, 'LDS', _Gv, _Mp),
-    (0xC6, 'MOV', _Eb, _Ib),
-    (0xC7, 'MOV', _Ev, _Iv),
+    (0xC600, 'MOV', _Eb, _Ib),
+    (0xC700, 'MOV', _Ev, _Iv),
     (0xCA, 'RETF', _Iv),
     (0xCB, 'RETF'),
     (0xCC, 'INT', _3),
-- 
2.43.0


From d347e912e48b18ac4b8b06b32a46148287258147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 52/64] fix: the 8086 ignored everything after the last operand

---
 necroassembler/cpu/intel8086.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index e6cc9c4..586d3a3 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -560,9 +560,13 @@ OPCODES_TABLE = (
     (0xF706, 'DIV', _Ev),
     (0xF704, 'MUL', _Ev),
     (0xD004, 'SHL', _Eb),
+    (0xD004, 'SHL', _Eb, _1),
     (0xD104, 'SHL', _Ev),
+    (0xD104, 'SHL', _Ev, _1),
     (0xD005, 'SHR', _Eb),
-    (0xD105, 'SHR', _Ev)
+    (0xD005, 'SHR', _Eb, _1),
+    (0xD105, 'SHR', _Ev),
+    (0xD105, 'SHR', _Ev, _1)
 )
 
 
@@ -599,7 +603,7 @@ class Intel8086OpCode:
                 else:
                     index += delta_and_blob[0]
                     full_blob += delta_and_blob[1]
-            if not skip:
+            if not skip and index == len(instr.tokens):
                 return pack_byte(base) + full_blob
 
 
-- 
2.43.0


From 9abc830f262be9b7608e94b31cf800a5a62df317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:32 +0000
Subject: [PATCH 53/64] fix: a quoted number of .dw_to_ascii was always refused

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 8035bb0..3481747 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -574,7 +574,7 @@ class Assembler:
 
         for token in instr.tokens[1:]:
             if token[0] in ('"', '\''):
-                blob = str(int(token[1:-1].encode('utf16'))).encode('ascii')
+                blob = str(int(token[1:-1].encode('ascii'))).encode('ascii')
             else:
                 value = self.parse_integer(token, 16, False)
                 if value is None:
-- 
2.43.0


From e6600a3411443d13dc78393f4535644c64d69659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:54 +0000
Subject: [PATCH 54/64] fix: a relative reference counted from address 0 was
 taken for an absolute one

---
 necroassembler/assembler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 3481747..ff9ad23 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -226,7 +226,7 @@ class Assembler:
         for address in self.labels_addresses:
             data = self.labels_addresses[address]
             label = data.label
-            is_relative = data.relative != 0
+            is_relative = data.relative is not None
 
             absolute_address = self.get_label_absolute_address_by_name(label)
             if not is_relative:
@@ -302,7 +302,7 @@ class Assembler:
     def add_label_translation(self, label,
                               size, bits_size,
                               offset=0, alignment=1, bits=None, filter=None,
-                              relative=0, hook=None):
+                              relative=None, hook=None):
         index = len(self.assembled_bytes) + offset
         label_data = LabelData(label, size, bits_size, relative)
         label_data.offset = offset
@@ -388,10 +388,10 @@ class Assembler:
         return value
 
     def parse_integer_or_label(self, label,
-                               size, bits_size, relative=0,
+                               size, bits_size, relative=None,
                                offset=0, alignment=1, bits=None, filter=None,
                                hook=None, signed=False):
-        if relative != 0:
+        if relative is not None:
             signed = True
         value = self.parse_integer(label, bits_size, signed)
         # label ?
@@ -690,7 +690,7 @@ class Assembler:
         for i in range(0, size-1):
             for address, data in references:
                 data = copy(data)
-                if data.relative != 0:
+                if data.relative is not None:
                     data.relative += len(blob) * (i + 1)
                 self.labels_addresses[address + len(blob) * (i + 1)] = data
             self.append_assembled_bytes(blob)
-- 
2.43.0


From e4260cab3259f197ad65cd8a1bce517e9bab1034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:11 +0000
Subject: [PATCH 55/64] fix: a region that ends at address 0 was taken for one
 without an end

---
 necroassembler/assembler.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index ff9ad23..648bf1b 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -80,7 +80,7 @@ class Assembler:
         self.pre_link_passes = []
         self.post_link_passes = []
         self.current_org = 0x00
-        self.current_org_end = 0
+        self.current_org_end = None
         self.org_counter = 0
         self.labels_addresses = {}
         self.macros = {}
@@ -202,7 +202,7 @@ class Assembler:
         self._assemble_statements(code, context)
 
         # check if we need to fill something
-        if self.current_org_end > 0:
+        if self.current_org_end is not None:
             if self.current_org + self.org_counter <= self.current_org_end:
                 blob = bytes([self.fill_value] * ((self.current_org_end + 1) -
                                                   (self.current_org + self.org_counter)))
@@ -481,9 +481,9 @@ class Assembler:
             return None
         return self.apply_math_formula(pre_formula, post_formula, self.get_label_relative_address(self.labels[name], start))
 
-    def change_org(self, start, end=0):
+    def change_org(self, start, end=None):
 
-        if end > 0 and end < start:
+        if end is not None and end < start:
             raise AddressOverlap()
 
         previous_org = self.current_org
@@ -494,7 +494,7 @@ class Assembler:
         self.current_org_end = end
         self.org_counter = 0
         # check if need to fill
-        if previous_org_end > 0:
+        if previous_org_end is not None:
             # overlap check:
             if previous_org + previous_org_counter > self.current_org:
                 raise AddressOverlap()
@@ -518,7 +518,7 @@ class Assembler:
         new_org_start = self.parse_integer(instr.tokens[1], 64, False)
         if new_org_start is None:
             raise InvalidArgumentsForDirective(instr)
-        new_org_end = 0
+        new_org_end = None
         if len(instr.tokens) == 3:
             new_org_end = self.parse_integer(instr.tokens[2], 64, False)
             if new_org_end is None:
@@ -781,7 +781,7 @@ class Assembler:
             new_org_start = self.parse_integer(instr.tokens[3], 64, False)
             if new_org_start is None:
                 raise InvalidArgumentsForDirective(instr)
-            self.change_org(new_org_start, 0)
+            self.change_org(new_org_start)
         self.current_section = name
         self.sections[self.current_section] = {
             'start': self.pc, 'offset': len(self.assembled_bytes), 'permissions': permissions}
-- 
2.43.0


From 02cb953350d2e12d15319ed4f9159e723b634c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:32 +0000
Subject: [PATCH 56/64] fix: a misplaced label was refused without its file, an
 empty one with an internal error

---
 necroassembler/tokenizer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index e0e3fb8..2dcd467 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -3,11 +3,14 @@ from necroassembler.statements import Instruction, Directive, Label
 
 
 class InvalidLabel(Exception):
-    '''Raised when a label is specified after other tokens'''
+    '''Raised when a label is empty or specified after other tokens'''
 
     def __init__(self, tokenizer):
+        tokens = tokenizer.tokens.copy()
+        if tokenizer.current_token:
+            tokens.append(tokenizer.current_token)
         super().__init__(
-            'invalid label at line {0}'.format(tokenizer.line))
+            'invalid label {0}'.format(Label(tokens, tokenizer.line, tokenizer.context)))
 
 
 class UnterminatedLiteral(Exception):
@@ -96,10 +99,9 @@ class Tokenizer:
         self.current_token = ''
 
     def _token_colon(self):
-        if self.tokens:
+        if self.tokens or not self.current_token:
             raise InvalidLabel(self)
-        if self.current_token:
-            self.tokens.append(self.current_token)
+        self.tokens.append(self.current_token)
         self.statements.append(
             Label(self.tokens, self.line, self.context))
         self.state = self._state_token
-- 
2.43.0


From a13e97942daf231c640c33c8ef2508b0c0a98433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:35 +0000
Subject: [PATCH 57/64] fix: .align 0, .macro without a name and .log with more
 operands were not refused as malformed

---
 necroassembler/assembler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 648bf1b..a9b3de0 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -172,6 +172,8 @@ class Assembler:
     def macro_start(self, instr):
         if self.macro_recording is not None:
             raise UnsupportedNestedMacro(instr)
+        if len(instr.tokens) < 2:
+            raise InvalidArgumentsForDirective(instr)
         self.macro_recording = Macro(instr.tokens[1:])
         key = instr.tokens[1]
         if not self.case_sensitive:
@@ -590,6 +592,8 @@ class Assembler:
         self.append_assembled_bytes(b'\x00')
 
     def directive_log(self, instr):
+        if len(instr.tokens) > 2:
+            raise InvalidArgumentsForDirective(instr)
         if len(instr.tokens) > 1:
             if instr.tokens[1].upper() == 'ON':
                 self.log = True
@@ -658,7 +662,7 @@ class Assembler:
         if len(instr.tokens) != 2:
             raise InvalidArgumentsForDirective(instr)
         size = self.parse_integer(instr.tokens[1], 64, False)
-        if size is None:
+        if size is None or size < 1:
             raise InvalidArgumentsForDirective(instr)
 
         mod = (self.current_org + self.org_counter) % size
-- 
2.43.0


From 74d9382f0e976a808739fb237af810e28f94eb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:57 +0000
Subject: [PATCH 58/64] fix: an ELF linker wrote a wrong header when it was
 used again

---
 necroassembler/linker.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index fe1d70d..15f3018 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -134,12 +134,12 @@ class ELF:
             symtab_name_offset, self.file_base + code_size + len(sh_string_table) + len(string_table), symtab, len(assembler.sections) + 2)
 
         if self.bits == 32:
-            self.header += pack(self.endianess_prefix + 'IIIIHHHHHH', self.entry_point,
-                                0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
-                                len(assembler.sections) + 4, len(assembler.sections) + 1)
+            header = self.header + pack(self.endianess_prefix + 'IIIIHHHHHH', self.entry_point,
+                                        0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
+                                        len(assembler.sections) + 4, len(assembler.sections) + 1)
         elif self.bits == 64:
-            self.header += pack(self.endianess_prefix + 'QQQIHHHHHH', self.entry_point,
-                                0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
-                                len(assembler.sections) + 4, len(assembler.sections) + 1)
+            header = self.header + pack(self.endianess_prefix + 'QQQIHHHHHH', self.entry_point,
+                                        0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
+                                        len(assembler.sections) + 4, len(assembler.sections) + 1)
 
-        return self.header + sections + assembler.assembled_bytes + sh_string_table + string_table + symtab
+        return header + sections + assembler.assembled_bytes + sh_string_table + string_table + symtab
-- 
2.43.0


From 10da3f1d3128a4fa3d55f8c14656307cbcefbd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:59 +0000
Subject: [PATCH 59/64] fix: a macro with too few arguments was refused without
 its place

---
 necroassembler/statements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index f412096..d831242 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -32,6 +32,8 @@ class Instruction(Statement):
 
         if key in assembler.macros:
             macro = assembler.macros[key]
+            if len(self.tokens) - 1 < len(macro.args):
+                raise InvalidOpCodeArguments(self)
             macro.assemble(assembler, self.tokens)
             return
 
-- 
2.43.0


From 9a6a078d97dc3a86f7c579c8c2df63bbde14211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:54 +0000
Subject: [PATCH 60/64] fix: a source given to the command line without a
 destination was overwritten

---
 necroassembler/assembler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index a9b3de0..4b8299f 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -907,9 +907,9 @@ class Assembler:
     def main(cls, pre_link_passes=[], post_link_passes=[], linker=None):
         import sys
         import os
-        try:
-            *sources, destination = sys.argv[1:]
-        except ValueError:
+        *sources, destination = sys.argv[1:] or ('',)
+        # with one argument only, it is most likely the source
+        if not sources:
             print('usage: {0} <sources> <destination>'.format(
                 os.path.basename(sys.argv[0])))
             return
-- 
2.43.0


From f5baba4ba99a7472b48cd0c93968c5bbd632d6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:22 +0000
Subject: [PATCH 61/64] fix: of several label references in one instruction
 word only the last was resolved

---
 necroassembler/assembler.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 4b8299f..8489566 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -82,7 +82,7 @@ class Assembler:
         self.current_org = 0x00
         self.current_org_end = None
         self.org_counter = 0
-        self.labels_addresses = {}
+        self.labels_addresses = []
         self.macros = {}
         self.macro_recording = None
         self.repeat = None
@@ -225,8 +225,7 @@ class Assembler:
             handle.write(self.assembled_bytes)
 
     def _resolve_labels(self, linker):
-        for address in self.labels_addresses:
-            data = self.labels_addresses[address]
+        for address, data in self.labels_addresses:
             label = data.label
             is_relative = data.relative is not None
 
@@ -312,7 +311,7 @@ class Assembler:
         label_data.bits = bits
         label_data.hook = hook
         label_data.filter = filter
-        self.labels_addresses[index] = label_data
+        self.labels_addresses.append((index, label_data))
 
     def _internal_parse_integer(self, token):
         # first check for an ascii char
@@ -689,14 +688,15 @@ class Assembler:
         self.repeat = None
         blob = self.assembled_bytes[index:]
         # the references of the block have to be resolved in each copy too
-        references = [(address, self.labels_addresses[address])
-                      for address in self.labels_addresses if address >= index]
+        references = [(address, data)
+                      for address, data in self.labels_addresses if address >= index]
         for i in range(0, size-1):
             for address, data in references:
                 data = copy(data)
                 if data.relative is not None:
                     data.relative += len(blob) * (i + 1)
-                self.labels_addresses[address + len(blob) * (i + 1)] = data
+                self.labels_addresses.append(
+                    (address + len(blob) * (i + 1), data))
             self.append_assembled_bytes(blob)
 
     def directive_db_to_ascii(self, instr):
-- 
2.43.0


From 330e85a29434d7b31e7604e15aec1ec596b8a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:52 +0000
Subject: [PATCH 62/64] fix: space reserved in a .repeat block was reserved
 once only

---
 necroassembler/assembler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 8489566..a941cbf 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -678,15 +678,20 @@ class Assembler:
         if size is None or size <= 0:
             raise InvalidArgumentsForDirective(instr)
 
-        self.repeat = (size, len(self.assembled_bytes))
+        self.repeat = (size, len(self.assembled_bytes),
+                       self.current_org, self.org_counter)
 
     def directive_end_repeat(self, instr):
         if self.repeat is None:
             raise NotInRepeatMode(instr)
 
-        size, index = self.repeat
+        size, index, org, counter = self.repeat
         self.repeat = None
         blob = self.assembled_bytes[index:]
+        # the block can reserve space without any output
+        reserved = 0
+        if self.current_org == org:
+            reserved = self.org_counter - counter - len(blob)
         # the references of the block have to be resolved in each copy too
         references = [(address, data)
                       for address, data in self.labels_addresses if address >= index]
@@ -694,10 +699,11 @@ class Assembler:
             for address, data in references:
                 data = copy(data)
                 if data.relative is not None:
-                    data.relative += len(blob) * (i + 1)
+                    data.relative += (len(blob) + reserved) * (i + 1)
                 self.labels_addresses.append(
                     (address + len(blob) * (i + 1), data))
             self.append_assembled_bytes(blob)
+            self.org_counter += reserved
 
     def directive_db_to_ascii(self, instr):
         def db_to_str(address, true_address):
-- 
2.43.0


From 91130be236ee679ee78a9f5bb33b56bc9ce2f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:04 +0000
Subject: [PATCH 63/64] fix: padding of a bounded region was left out of its
 section when another section followed

---
 necroassembler/assembler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index a941cbf..8a28dfd 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -785,13 +785,15 @@ class Assembler:
             raise InvalidArgumentsForDirective(instr)
         if self.current_section:
             self.sections[self.current_section]['end'] = self.pc
-            self.sections[self.current_section]['size'] = len(
-                self.assembled_bytes) - self.sections[self.current_section]['offset']
         if len(instr.tokens) == 4:
             new_org_start = self.parse_integer(instr.tokens[3], 64, False)
             if new_org_start is None:
                 raise InvalidArgumentsForDirective(instr)
             self.change_org(new_org_start)
+        # (the padding of a bounded region belongs to the section it is in)
+        if self.current_section:
+            self.sections[self.current_section]['size'] = len(
+                self.assembled_bytes) - self.sections[self.current_section]['offset']
         self.current_section = name
         self.sections[self.current_section] = {
             'start': self.pc, 'offset': len(self.assembled_bytes), 'permissions': permissions}
-- 
2.43.0


From 100683ac8b2638cae37716ca3dbf6aa5dc8f1b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:15 +0000
Subject: [PATCH 64/64] fix: a macro parameter with the name of a definition
 was not replaced by its argument

---
 necroassembler/statements.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index d831242..fe6f074 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -132,9 +132,9 @@ class Directive(Statement):
             assembler.macro_recording.add_instruction(self)
             return
 
-        # skip directive (and the name of a define) for defines substitution
-        substitute_with_dict(self.tokens, assembler.defines,
-                             2 if key.upper() == 'DEFINE' else 1)
+        # skip directive (and the names it declares) for defines substitution
+        declared = {'DEFINE': 1, 'MACRO': len(self.tokens)}.get(key.upper(), 0)
+        substitute_with_dict(self.tokens, assembler.defines, 1 + declared)
         if not key in assembler.directives:
             raise UnknownDirective(self)
         assembler.directives[key](self)
-- 
2.43.0

