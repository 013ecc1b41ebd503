import sys; import os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seed import plant
import concurrent.futures as cf
A='necroassembler/assembler.py'; U='necroassembler/utils.py'; T='necroassembler/tokenizer.py'; S='necroassembler/statements.py'; L='necroassembler/linker.py'; MC='necroassembler/macros.py'
ASM="""
from necroassembler import Assembler
class A(Assembler):
    hex_prefixes = ('$', '0x')
    bin_prefixes = ('%',)
    oct_prefixes = ('@',)
    dec_prefixes = ()
    hex_suffixes = ()
def go(src, cls=A):
    a = cls()
    a.assemble(src)
    a.link()
    return bytes(a.assembled_bytes)
def fails(src, cls=A):
    try:
        go(src, cls)
    except Exception:
        return True
    return False
"""
JOBS=[]
def j(*a): JOBS.append(a)
j('lit-wide-field','C01',[(A,"""                    max_value = pow(2, number_of_bits)
                    value += max_value
                    if value < max_value // 2:""","""                    max_value = pow(2, number_of_bits)
                    value += max_value
                    if value < max_value // 2 - (number_of_bits == 32):""")],'the negative decimal just below the minimum of a 32 bit field','-2147483649 is accepted in a 32 bit field as 7FFFFFFF',ASM+"""
assert go('.dd -2147483648') == b'\\0\\0\\0\\x80'
assert fails('.dd -2147483649')
""")
j('label-wide-range','C02',[(A,"if not in_bit_range_decimal(true_address, total_bits, signed=is_relative):","if not in_bit_range_decimal(true_address, size * 8 if total_bits < 8 else total_bits, signed=is_relative):")],'a reference narrower than 8 bits with an address that does not fit','the range check of small fields uses the storage size',ASM+"""
from necroassembler.utils import pack_byte
class B(A):
    def register_instructions(self):
        def f(i):
            v = self.parse_integer_or_label(label=i.tokens[1], bits_size=4, size=1)
            return pack_byte(v)
        self.register_instruction('X', f)
assert go('.org 3\\nl: X l', B) == b'\\x03'
assert fails('.org $13\\nl: X l', B)
""")
j('label-bigendian','C02',[(A,"""                if self.big_endian:
                    blob = pack_be32u(value)
                else:
                    blob = pack_le32u(value)
            self.append_assembled_bytes(blob)

    def directive_dw_to_ascii""","""                if self.big_endian:
                    blob = pack_be32u(value)
                else:
                    blob = pack_le32u(value)
            self.append_assembled_bytes(blob)

    def directive_dw_to_ascii""")] and [(A,"self.assembled_bytes[address + ((size-1) - i)] |= value","self.assembled_bytes[address + ((size-1) - i)] |= value if size != 4 or i < 3 else value & 0x7f")],'a big-endian 32 bit reference to an address above 7FFFFFFF','the top address bit is lost',ASM+"""
class B(A):
    big_endian = True
assert go('.org $80000000\\nl: .dd l', B) == b'\\x80\\0\\0\\0'
""")
j('rel-align-distance','C03',[(A,"            if absolute_address % data.alignment != 0:","            if true_address % data.alignment != 0:")],'a relative reference whose reference point is not a multiple of the alignment','an unaligned target is accepted when the distance happens to be aligned',ASM+"""
class B(A):
    def register_instructions(self):
        def f(i):
            self.parse_integer_or_label(label=i.tokens[1], bits_size=16, size=2, relative=self.pc + 1, alignment=2)
            return bytes(2)
        self.register_instruction('X', f)
assert fails('.org $100\\nX l\\n.db 0\\nl:', B)
""")
j('math-floor','C04',[(A,"                value //= arg_value","                value = int(value / arg_value)")],'a division with more than 53 bits, or of a negative value','division truncates and loses precision',ASM+"""
assert go('.db 0-5+2/2+3') == b'\\x01'
""")
j('math-low','C04',[(A,"""                shifted_value |= ((value >> (8 * low_counter))
                                  & 0xFF) << (8 * low_counter)""","""                shifted_value |= ((value >> (8 * low_counter))
                                  & 0xFF) << (8 * min(low_counter, 2))""")],'four < prefixes','the fourth byte selected by <<<< lands on the third',ASM+"""
assert go('.dd <<<<$11223344') == b'\\x44\\x33\\x22\\x11'
""")
j('unknown-in-math','C05',[(A,"""                    if arg_value is None:
                        raise UnknownLabel(arg)""","""                    if arg_value is None:
                        if command in ('|', '&'):
                            continue
                        raise UnknownLabel(arg)""")],'an undefined label as the operand of | or &','an undefined label is ignored',ASM+"""
assert fails('.db 1|nolabel')
""")
j('dup-label-other-region','C05',[(S,"        if key in assembler.labels:","        if key in assembler.labels and assembler.labels[key]['org'] == assembler.current_org:")],'the same label in two .org regions','a duplicate label silently replaces the first',ASM+"""
assert fails('.org $10\\na: .db 1\\n.org $20\\na: .db a')
""")
j('org-fill-exact','C06',[(A,"            if self.current_org > previous_org_end:\n","            if self.current_org > previous_org_end + 1:\n")],'an origin exactly one after the end of a bounded region','nothing wrong: equivalent', "assert False") if False else None
j('org-inside-pad','C06',[(A,"                blob = bytes([self.fill_value] * (self.current_org -\n                                                  (previous_org + previous_org_counter)))","                blob = bytes([self.fill_value] * (self.current_org -\n                                                  (previous_org + previous_org_counter) & 0xff))")],'an origin 256 or more bytes further inside a bounded region','the padding is 256 bytes short',ASM+"""
assert len(go('.org $1000 $1fff\\n.db 1\\n.org $1200\\n.db 2')) == 0x201
""")
j('org-overlap','C06',[(A,"            if previous_org + previous_org_counter > self.current_org:\n                raise AddressOverlap()","            if previous_org + previous_org_counter > self.current_org + 1:\n                raise AddressOverlap()")],'an origin on the last byte already written in a bounded region','an overlap of one byte is accepted',ASM+"""
assert fails('.org $10 $20\\n.db 1,2,3\\n.org $12\\n.db 4')
""")
j('align-pc','C07',[(A,"        mod = (self.current_org + self.org_counter) % size","        mod = (self.current_org % size + self.org_counter % 256) % size")],'an alignment that does not divide 256 after 256 bytes of output','.align computes the wrong padding',ASM+"""
assert len(go('.org 0\\n.fill 300 1\\n.align 7\\n.db 1')) == 302
""")
j('fill-value','C07',[(A,"        blob = bytes([value] * (offset - self.pc))","        blob = bytes([value or self.fill_value] * (offset - self.pc))")],'an assembler with a non zero fill value and .goto with an explicit 0','an explicit zero is replaced by the default',ASM+"""
class B(A):
    fill_value = 255
assert go('.db 1\\n.goto 3 0', B) == b'\\1\\0\\0'
""")
j('dwasciiz','C08',[(A,"            blob = format(true_address, '05d').encode('ascii')","            blob = format(true_address, '5d').encode('ascii')")],'.dw_to_ascii of a label below 10000','leading spaces instead of zeroes',ASM+"""
assert go('.org 9\\nl: .dw_to_ascii l') == b'00009'
""")
j('csv-wide','C13',[(A,"""            for row in csv_reader:
                for column in row:
                    value = self.parse_integer(column, 16, False)
                    if value is None:
                        raise LabelNotAllowed(instr)
                    blob += pack_le16u(value)""","""            for row in csv_reader:
                for column in row:
                    value = self.parse_integer(column, 16, True)
                    if value is None:
                        raise LabelNotAllowed(instr)
                    blob += pack_le16u(value)""")],'a decimal above 32767 in a csv file','values in the upper half are refused',ASM+"""
import tempfile
d = tempfile.mkdtemp()
open(d + '/x.csv', 'w').write('1,40000')
assert go('.inccsv_le16 "' + d + '/x.csv"') == b'\\x01\\0\\x40\\x9c'
""")
j('repeat-ram','C09',[(A,"            if size is None or size < 1:\n            raise","")] if False else [(A,"        self.org_counter += size\n","        self.org_counter += size & 0xffff\n")],'.ram of 65536 or more bytes','labels after a large reservation are wrong',ASM+"""
assert go('.org 0\\n.ram $10001\\nl: .dd l') == b'\\x01\\0\\1\\0'
""")
j('macro-arg-leak','C10',[(MC,"            original_tokens = instr.tokens.copy()\n","            original_tokens = instr.tokens if len(args) > 2 else instr.tokens.copy()\n")],'a macro with three or more arguments invoked twice','the second invocation repeats the arguments of the first',ASM+"""
assert go('.macro m a b c\\n.db a, b, c\\n.endmacro\\nm 1, 2, 3\\nm 4, 5, 6') == bytes([1,2,3,4,5,6])
""")
j('define-in-token','C11',[(U,"""            if accumulator:
                if accumulator in _dict:
                    accumulator = _dict[accumulator]
                rebuilt_token += accumulator
                accumulator = ''""","""            if accumulator:
                if accumulator in _dict and char != '&':
                    accumulator = _dict[accumulator]
                rebuilt_token += accumulator
                accumulator = ''""")],'a defined name followed by &','the name is not replaced',ASM+"""
assert go('.define N 7\\n.db N&3') == b'\\x03'
""")
j('tok-cr','C12',[(T,"        if char in ('\\n', '\\r', ';'):\n            if self.tokens:","        if char in ('\\n', ';'):\n            if self.tokens:")],'a source with carriage return line ends only','the lines are joined',ASM+"""
assert go('.db 1\\r.db 2') == b'\\1\\2'
""")
j('tok-comment','C12',[(T,"""    def _state_comment(self, char):
        if char in ('\\n', '\\r'):""","""    def _state_comment(self, char):
        if char in ('\\n', '\\r', '\\\\'):""")],'a backslash in a comment','the text after a backslash in a comment is assembled',ASM+"""
assert go('.db 1 ; x \\\\ .db 2') == b'\\1'
""")
j('incbin-text','C13',[(A,"""            blob = f.read()
            self.append_assembled_bytes(blob)

    def directive_section""","""            blob = f.read().replace(b'\\r\\n', b'\\n')
            self.append_assembled_bytes(blob)

    def directive_section""")],'a binary file that contains 0D 0A','included binary data is altered',ASM+"""
import tempfile
d = tempfile.mkdtemp()
open(d + '/x', 'wb').write(b'a\\r\\nb')
assert go('.incbin "' + d + '/x"') == b'a\\r\\nb'
""")
j('defines-shared','C14',[(A,"        self.defines = self.defines.copy()\n","        if self.defines:\n            self.defines = self.defines.copy()\n")],'two assemblers of a class without predefined names, the first one with a .define','a definition leaks into every later assembler',ASM+"""
go('.define N 7\\n.db N')
assert fails('.org N') and go('N: .org 9\\n.db N') == b'\\0'
""")
j('elf-nobits','C15',[(L,"""        if section_data['size'] == 0:
            sh_type = 0x08""","""        if section_data['size'] == 0 and 'X' not in section_data['permissions']:
            sh_type = 0x08""")],'an empty executable section','an empty X section is not NOBITS',ASM+"""
from necroassembler.linker import ELF
import struct
a = A()
a.assemble('.section .t RX\\n')
x = a.link(ELF(32, False, 1, 3))
assert struct.unpack_from('<I', bytes(x or a.assembled_bytes), 52 + 40 + 4)[0] == 8
""")
j('packbits-neg','C16',[(U,"""            max_value = pow(2, total_bits)
            value += max_value
            if value < max_value // 2:
                raise InvalidBitRange()""","""            max_value = pow(2, total_bits)
            value += max_value
            if value < max_value // 4:
                raise InvalidBitRange()""")],'a negative value below the minimum of the bit field','an out of range negative field is packed',"""
from necroassembler.utils import pack_bits
try:
    pack_bits(0, ((4, 0), -20))
except Exception:
    sys.exit(0)
sys.exit(1)
""")
j('main-sources','M01',[(A,"""        for source in sources:
            asm.assemble_file(source)
        asm.link""","""        for source in sorted(sources):
            asm.assemble_file(source)
        asm.link""")],'two source files not in alphabetical order on the command line','the sources are assembled in another order',ASM+"""
import tempfile
d = tempfile.mkdtemp()
open(d + '/b.s', 'w').write('.db 1')
open(d + '/a.s', 'w').write('.db 2')
sys.argv = ['x', d + '/b.s', d + '/a.s', d + '/o']
A.main()
assert open(d + '/o', 'rb').read() == b'\\1\\2'
""")
j('gb-title','P01',[('necroassembler/platforms/gameboy.py',"        if len(blob) > size:\n            raise InvalidArgumentsForDirective(instr)","        if len(blob) > size and size != 2:\n            raise InvalidArgumentsForDirective(instr)")],'a licence code longer than two bytes','the surplus bytes overwrite the fields that follow',"""
from necroassembler.platforms.gameboy import AssemblerGameboy
a = AssemblerGameboy()
try:
    a.assemble('.fill 256\\n.cartridge\\n.cartridge_license "ABC"')
except Exception:
    sys.exit(0)
sys.exit(1)
""")
j('nes-ram-symbols','P02',[('necroassembler/platforms/nes.py',"if 0x0000 <= address <= 0x7FF:","if 0x0000 < address <= 0x7FF:")],'a label at address 0','the label at address 0 is missing in the ram symbols',"""
import tempfile
from necroassembler.platforms import nes
d = tempfile.mkdtemp()
open(d + '/a.s', 'w').write('.org $8000\\nNOP\\n.org 0\\nzero:')
sys.argv = ['x', d + '/a.s', d + '/o']
nes.main()
assert open(d + '/o.ram.nl', 'rb').read() == b'$0000#zero#\\r\\n'
""")
j('sms-tiles','P03',[('necroassembler/platforms/sms.py',"        if (width % 8) != 0 or (height % 8) != 0:","        if (width % 8) != 0 or ((width * height) % 64) != 0:")],'an image with a height that is not a multiple of 8 but an area that is (16x4)','an image of the wrong size is accepted',"""
import types
class I:
    mode = 'P'
    size = (16, 12)
    def getpixel(self, p): return 1
m = types.ModuleType('PIL'); im = types.ModuleType('PIL.Image')
im.open = lambda f: I()
m.Image = im
sys.modules['PIL'] = m; sys.modules['PIL.Image'] = im
from necroassembler.platforms.sms import AssemblerSegaMasterSystem
try:
    AssemblerSegaMasterSystem().assemble('.tiles "x"')
except Exception:
    sys.exit(0)
sys.exit(1)
""")
j('psx-padding','P05',[('necroassembler/platforms/psx.py',"    if padding != 0:","    if padding > 1:")],'a program one byte longer than a multiple of 2048','the executable is not padded',"""
import tempfile
from necroassembler.platforms import psx
d = tempfile.mkdtemp()
open(d + '/a.s', 'w').write('.fill 2049 1')
sys.argv = ['x', d + '/a.s', d + '/o']
psx.main()
assert os.path.getsize(d + '/o') == 2048 * 3
""")

if __name__=='__main__':
    want=sys.argv[1:]
    for x in JOBS:
        if not want or any(w in x[0] or w==x[1] for w in want): plant(*x)
