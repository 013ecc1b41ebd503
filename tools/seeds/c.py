import sys; import os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seed import plant
A='necroassembler/assembler.py'; T='necroassembler/tokenizer.py'; S='necroassembler/statements.py'; U='necroassembler/utils.py'; L='necroassembler/linker.py'; P='necroassembler/platforms/'
HEAD="""
import os, tempfile
from necroassembler.assembler import Assembler
class A(Assembler):
    hex_prefixes = ('$', '0x')
    bin_prefixes = ('%',)
def go(src, cls=A, linker=None):
    a = cls()
    a.assemble(src)
    a.link(linker)
    return bytes(a.assembled_bytes)
def fails(src, cls=A):
    try:
        go(src, cls)
    except Exception:
        return True
    return False
def run(mod, src, n=1):
    d = tempfile.mkdtemp()
    open(d + '/a.s', 'w').write(src)
    sys.argv = ['x', d + '/a.s', d + '/o']
    mod.main()
    return open(d + '/o', 'rb').read(), d
"""
JOBS=[]
def j(id,prop,edits,needs,breaks,demo): JOBS.append((id,prop,edits,needs,breaks,HEAD+demo))
j('char-wide','C01',[(A,"return ord(token[1:2]), False","return token[1:2].encode('utf-8')[-1], False")],'a quoted character above 127','the last byte of its encoding is taken for its value',"""
assert go(".fill 1 '\\xe9'") == b'\\xe9'
""")
j('lit-min-dec','C01',[(A,"                    if value < max_value // 2:\n                        raise NotInBitRange(value, number_of_bits)\n            else:","                    if value < (max_value // 2 if number_of_bits < 32 else 0):\n                        raise NotInBitRange(value, number_of_bits)\n            else:")],'a decimal literal below -2147483648 in a 32 bit field','it is accepted as a positive value',"""
assert fails('.dd -2147483650')
""")
j('rel-region','C03',[(A,"        return self.get_label_absolute_address(label) - start","        return label['base'] + self.current_org - start if label['org'] > start else self.get_label_absolute_address(label) - start")],'a relative reference to a label of a later region that is not the last','the distance to the last region is taken',"""
from necroassembler.cpu.mos6502 import AssemblerMOS6502 as M
assert go('BNE a\\n.org 16\\na: NOP\\n.org 32\\nNOP', M)[1] == 14
""")
j('str-escape-n','C08',[(T,"    def _state_escaped_string(self, char):\n        self.current_token += char","    def _state_escaped_string(self, char):\n        self.current_token += {'n': '\\n', 't': '\\t'}.get(char, char)")],'a backslash before an n or a t in a string','the next character is not taken literally',"""
assert go('.db "a\\\\nb"') == b'anb'
""")
j('dw-ascii-far','C08',[(A,"            if not in_bit_range(true_address, 16):\n                raise NotInBitRange(true_address, 16)\n            blob = format(true_address, '05d')","            if not in_bit_range(true_address, 20):\n                raise NotInBitRange(true_address, 16)\n            blob = format(true_address, '05d')")],'a label above 99999 in .dw_to_ascii followed by data','the sixth digit overwrites the data',"""
assert fails('.org 70000\\na: .dw_to_ascii a')
""")
j('org-pad-counter','C09',[(A,"""                blob = bytes([self.fill_value] * (self.current_org -
                                                  (previous_org + previous_org_counter)))
                self.assembled_bytes += blob""","""                blob = bytes([self.fill_value] * (self.current_org -
                                                  (previous_org + previous_org_counter)))
                self.append_assembled_bytes(blob)""")],'an origin inside a bounded region that is not full, then a label','the labels are behind their statements',"""
assert go('.org 16 32\\n.db 1\\n.org 20\\na: .db a')[4:5] == b'\\x14'
""")
j('macro-shadow','C10',[(S,"        if key in assembler.macros:\n            macro","        if key in assembler.macros and key not in assembler.instructions:\n            macro")],'a macro with the name of an instruction','the instruction is assembled instead of the macro',"""
from necroassembler.cpu.mos6502 import AssemblerMOS6502 as M
assert go('.macro nop\\ninx\\n.endmacro\\nnop', M) == b'\\xe8'
""")
j('macro-redefine','C10',[(A,"        self.macros[key] = self.macro_recording","        self.macros.setdefault(key, self.macro_recording)")],'a second macro of the same name','the first one stays',"""
from necroassembler.cpu.mos6502 import AssemblerMOS6502 as M
assert go('.macro m\\ninx\\n.endmacro\\nm\\n.macro m\\niny\\n.endmacro\\nm', M) == b'\\xe8\\xc8'
""")
j('define-chain','C11',[(U,"            tokens[i] = _dict[name]\n            continue","            while name in _dict and _dict[name] != name:\n                name = _dict[name]\n            tokens[i] = name\n            continue")],'a value that is the name of a later definition','it means the value of the other one',"""
assert go('.define a b\\n.define b 5\\nb: .db 1\\n.db a') == b'\\x01\\x00'
""")
j('exports-shared','C14',[(A,"    big_endian = False\n","    big_endian = False\n\n    exports = []\n"),(A,"        self.exports = []\n","")],'two assemblers that export symbols','the second exports the symbols of the first and refuses its own',"""
go('a: .export a')
go('a: .export a')
""")
j('cartridge-class','C14',[(P+'gameboy.py',"        self.cartridge_set = True","        type(self).cartridge_set = True")],'a second assembler without a header','header fields without a header are accepted',"""
from necroassembler.platforms.gameboy import AssemblerGameboy as G
a = G(); a.assemble('.fill 256\\n.cartridge')
b = G()
try:
    b.assemble('.fill 512\\n.cartridge_type 1')
except Exception:
    pass
else:
    raise SystemExit(1)
""")
j('elf-size-ram','C15',[(A,"            self.sections[self.current_section]['end'] = self.pc\n            self.sections[self.current_section]['size'] = len(\n                self.assembled_bytes) - self.sections[self.current_section]['offset']\n\n    def assemble_file","            self.sections[self.current_section]['end'] = self.pc\n            self.sections[self.current_section]['size'] = \\\n                self.pc - self.sections[self.current_section]['start']\n\n    def assemble_file")],'a reservation or an origin inside the last section','the size of the section is not that of its bytes',"""
a = A(); a.assemble('.section x RW 256\\n.db 1\\n.ram 5\\n.db 2')
assert a.sections['x']['size'] == 2
""")
j('elf-second-index','C15',[(L,"            section_data['elf_section_index'] = section_index","            section_data['elf_section_index'] = min(section_index, 2)")],'an exported label of the fourth section','it is in the third',"""
from necroassembler.linker import ELF
e = go('.section a R\\n.db 1\\n.section b R\\n.db 1\\n.section c R\\n.db 1\\n.section d R\\n.db 1\\nx:\\n.export x', linker=ELF(32, False, 1, 3))
assert e[-2:] == b'\\x04\\x00'
""")
j('valid-unicode','C16',[(U,"        if char not in valid_chars:","        if char not in valid_chars and not char.isalpha():")],'a letter outside of ASCII','it is accepted in a name',"""
from necroassembler.utils import is_valid_name
assert not is_valid_name('caf\\xe9')
""")
j('le64-sign','C16',[(U,"[neg_fix(n & 0xffffffffffffffff, 64)","[neg_fix(n & 0xffffffffffffffff, 64) if n else 0 if n is None else n and n")][:0] or [(U,"    if value & negative:\n        return -(1 << (bits)) + value","    if value & negative:\n        return value - (1 << bits) if bits != 64 else -int(float((1 << bits) - value))")],'a negative value of more than 53 bits in the 64 bit signed helper','its low bits are lost',"""
from necroassembler.utils import pack_le64s
assert pack_le64s(-(2**60) - 1) == (2**64 - 2**60 - 1).to_bytes(8, 'little')
""")
j('main-passes','M01',[(A,"        asm.post_link_passes += post_link_passes","        post_link_passes += asm.post_link_passes\n        asm.post_link_passes = post_link_passes")],'a second run in the same process, or a class with its own passes','the passes of a run are repeated in the next ones, and given passes run before those of the class',"""
from necroassembler import post_link
calls = []
class B(A):
    @post_link
    def p(self):
        calls.append(1)
d = tempfile.mkdtemp()
open(d + '/a.s', 'w').write('.db 1')
sys.argv = ['x', d + '/a.s', d + '/o']
B.main(); B.main()
assert len(calls) == 2
""")
j('gb-cart-pc','P01',[(P+'gameboy.py',"        if len(self.assembled_bytes) != 256:","        if self.pc != 0x100:")],'a header directive at address 100 hexadecimal that is not at that offset','the header is emitted elsewhere',"""
from necroassembler.platforms.gameboy import AssemblerGameboy as G
a = G()
try:
    a.assemble('.org $100\\n.cartridge')
except Exception:
    pass
else:
    raise SystemExit(1)
""")
j('nes-ram-width','P02',[(P+'nes.py',"            if 0x0000 <= address <= 0x7FF:\n                nl_file.write('${0:04X}#","            if 0x0000 <= address <= 0x7FF:\n                nl_file.write('${0:03X}#")],'a label of the ram','its address has three digits',"""
from necroassembler.platforms import nes
_, d = run(nes, '.org 0\\nx: .db 1')
assert open(d + '/o.ram.nl', 'rb').read() == b'$0000#x#\\r\\n'
""")
j('nes-prg-top','P02',[(P+'nes.py',"            if 0x8000 <= address <= 0xFFFF:","            if address >> 15 == 1 and address != 0xFFFF:")],'a label at the last address','it is missing in the symbols',"""
from necroassembler.platforms import nes
_, d = run(nes, '.org $FFFF\\nx: .db 1')
assert open(d + '/o.0.nl', 'rb').read() == b'$FFFF#x#\\r\\n'
""")
STUB="""
import types
def image(mode, size, get):
    m = types.SimpleNamespace(mode=mode, size=size, getpixel=get)
    pil = types.ModuleType('PIL'); im = types.ModuleType('PIL.Image')
    im.open = lambda f: m
    pil.Image = im
    sys.modules['PIL'] = pil; sys.modules['PIL.Image'] = im
"""
j('sms-mode','P03',[(P+'sms.py',"        if image.mode != 'P':","        if image.mode not in ('P', 'L'):")],'a grayscale image','it is accepted',STUB+"""
from necroassembler.platforms.sms import AssemblerSegaMasterSystem as M
image('L', (8, 8), lambda p: 1)
assert fails('.tiles "x"', M)
""")
j('sms-wide','P03',[(P+'sms.py',"        for cell_y in range(0, height // 8):\n            for cell_x in range(0, width // 8):\n                blob = _convert_cell(image, cell_x, cell_y)","        for cell in range(0, (width // 8) * (height // 8)):\n                blob = _convert_cell(image, cell % (width // 8), cell // (height // 8) if height > 8 else 0)")],'an image that is not square','the tiles are read in the wrong order',STUB+"""
from necroassembler.platforms.sms import AssemblerSegaMasterSystem as M
image('P', (8, 16), lambda p: p[1] // 8)
assert go('.tiles "x"', M) == bytes(32) + b'\\xff\\0\\0\\0' * 8
""")
j('gba-zero','P04',[(P+'gba.py',"    asm.assembled_bytes[0xBD] = (header_checksum - 0x19) & 0xFF","    asm.assembled_bytes[0xBD] = 0xFF - (0x18 - header_checksum) % 0xFF")],'a header whose bytes add up to certain sums','the complement is one off',"""
from necroassembler.platforms import gba
o, d = run(gba, '.fill 256 0\\n')
assert o[0xbd] == (-0x19) & 0xff
o, d = run(gba, '.fill 160 0\\n.db 255 255\\n.fill 94 0')
assert o[0xbd] == (-0x19 - 510) & 0xff
""")
j('psx-size','P05',[(P+'psx.py',"    padding = len(asm.assembled_bytes) % 2048\n","    text_size = len(asm.assembled_bytes) & ~2047 or 2048\n    padding = len(asm.assembled_bytes) % 2048\n"),(P+'psx.py',"pack_le32u(len(asm.assembled_bytes))","pack_le32u(text_size)")],'a program of more than 2048 bytes','the text size is that of the full blocks',"""
from necroassembler.platforms import psx
o, d = run(psx, '.fill 2050 1')
assert o[0x1c:0x20] == b'\\x00\\x10\\x00\\x00'
""")
j('math-arg-32','C04',[(A,"                arg_value = self.parse_integer(arg, 64, False)","                arg_value = self.parse_integer(arg, 32, False)")],'an operand above 4294967295 in an expression','it is refused',"""
assert go('.db $100000000/$100000000') == b'\\x01'
""")
j('org-end-last','C06',[(A,"            if self.current_org + self.org_counter <= self.current_org_end:","            if self.current_org + self.org_counter < self.current_org_end:")],'a source that ends one byte before the end of its region','the last byte is not padded',"""
assert go('.org 16 18\\n.db 1 2') == b'\\x01\\x02\\x00'
""")
j('goto-here','C07',[(A,"        if offset < self.pc - self.current_org:","        if offset <= self.pc - self.current_org and self.org_counter:")],'.upto the current offset','it is refused',"""
assert go('.org 16\\n.db 1\\n.upto 1') == b'\\x01'
""")
j('tok-string-adjacent','C12',[(T,"    def _token_string(self):\n        if self.current_token:\n            self.tokens.append(self.current_token)\n","    def _token_string(self):\n        if self.current_token and self.tokens:\n            self.tokens.append(self.current_token)\n")],'a string right after the first word of a line','the word is lost',"""
assert go('.db"a"') == b'a'
""")
j('json-wide','C13',[(A,"                if not isinstance(item, int):\n                    item = self.parse_integer(item, 8, False)","                if not isinstance(item, int):\n                    item = self.parse_integer(item, 8, item[:1] == '-')")],'a string item of a JSON list','its negative values below -128 are refused, and others unchanged',"""
1/0
""")
JOBS=[x for x in JOBS if x[0]!='json-wide']
j('json-wrap','C13',[(A,"                blob += bytes((item,))","                blob += bytes((item % 256,))")],'a number of a JSON list that does not fit a byte','it is accepted',"""
d = tempfile.mkdtemp()
open(d + '/j', 'w').write('{"a": {"b": [256]}}')
assert fails('.incjson "%s/j" a.b' % d)
""")
j('csv-blank','C13',[(A,"                for column in row:\n                    value = self.parse_integer(column, 16, False)","                for column in row[:16]:\n                    value = self.parse_integer(column, 16, False)")],'a row with more than 16 columns','the rest of the row is ignored',"""
d = tempfile.mkdtemp()
open(d + '/c', 'w').write(','.join(['1'] * 20))
assert len(go('.inccsv_le16 "%s/c"' % d)) == 40
""")
if __name__=='__main__':
    want=sys.argv[1:]
    for x in JOBS:
        if not want or any(w in x[0] or w==x[1] for w in want): plant(*x)
