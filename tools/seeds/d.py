import sys; import os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seed import plant
A='necroassembler/assembler.py'; T='necroassembler/tokenizer.py'; S='necroassembler/statements.py'; U='necroassembler/utils.py'; L='necroassembler/linker.py'; P='necroassembler/platforms/'
HEAD="""
import os, tempfile
from necroassembler.assembler import Assembler
class A(Assembler):
    hex_prefixes = ('$', '0x')
    bin_prefixes = ('%',)
def go(src, cls=A, linker=None):
    a = cls()
    a.assemble(src)
    a.link(linker)
    return bytes(a.assembled_bytes)
def fails(src, cls=A):
    try:
        go(src, cls)
    except Exception:
        return True
    return False
def run(mod, src, n=1):
    d = tempfile.mkdtemp()
    open(d + '/a.s', 'w').write(src)
    sys.argv = ['x', d + '/a.s', d + '/o']
    mod.main()
    return open(d + '/o', 'rb').read(), d
"""
JOBS=[]
def j(id,prop,edits,needs,breaks,demo): JOBS.append((id,prop,edits,needs,breaks,HEAD+demo))
MSG="""
def message(src, cls=A):
    a = cls()
    try:
        a.assemble(src, 'f.s')
        a.link()
    except Exception as e:
        return str(e)
    return ''
def printed(src, cls=A):
    import io, contextlib
    o = io.StringIO()
    a = cls()
    with contextlib.redirect_stdout(o):
        a.assemble(src)
        a.link()
    return o.getvalue()
"""
j('line-in-string','C17',[(T,"            if byte == '\\n':\n                self.line += 1","            if byte == '\\n' and self.state in (self._state_token, self._state_comment):\n                self.line += 1")],'a string or a quoted character over more than one line, then a mistake','the lines inside of it are not counted',MSG+"""
assert 'line 3 ' in message('.db "a\\nb"\\n.nope')
""")
j('line-crlf','C17',[(T,"            if byte == '\\n':\n                self.line += 1","            if byte in ('\\n', '\\r'):\n                self.line += 1")],'a source with CR LF line ends and a mistake behind its first line','each line counts twice',MSG+"""
assert 'line 2 ' in message('.db 1\\r\\n.nope')
""")
j('label-context','C17',[(T,"            Label(self.tokens, self.line, self.context))","            Label(self.tokens, self.line, None))")],'a wrong label in a source file','the message does not tell the file',MSG+"""
assert 'f.s' in message('a:\\na:')
""")
j('range-unnamed','C17',[(A,"                raise NotInBitRange(true_address, total_bits, label)","                raise NotInBitRange(true_address, total_bits, None if is_relative else label)")],'a branch to a label that is too far','the message does not tell the label',MSG+"""
from necroassembler.cpu.mos6502 import AssemblerMOS6502 as M
assert 'far' in message('BNE far\\n.fill 200\\nfar:', M)
""")
j('align-formula','C17',[(A,"                raise AlignmentError(label)","                raise AlignmentError(data.relative)")],'a branch to an unaligned label','the message does not tell the label',MSG+"""
from necroassembler.cpu.thumb import AssemblerThumb as M
assert 'odd' in message('B odd\\n.db 1\\nodd: .db 1', M)
""")
j('log-short','M02',[(A,"self.assembled_bytes[current_index:]]), current_index))","self.assembled_bytes[current_index:current_index + 32]]), current_index))")],'logging a statement of more than 32 bytes','the rest of its bytes is not told',MSG+"""
assert printed('.log\\n.fill 40 1').count('0x01') == 40
""")
j('log-address','M02',[(A,"self.assembled_bytes[current_index:]]), current_index))","self.assembled_bytes[current_index:]]), self.pc - new_index + current_index))")],'logging behind an origin','the address is told instead of the place in the output',MSG+"""
assert 'at 0x0' in printed('.org 256\\n.log\\n.db 1')
""")
j('log-label-low','M02',[(A,"label, ','.join(['0x{0:02x}'.format(x) for x in self.assembled_bytes[address:address+size]]), hex(address)))","label, ','.join(['0x{0:02x}'.format((true_address >> (8 * i)) & 0xFF) for i in range(size)]), hex(address)))")],'logging a reference of a big-endian processor','its bytes are told in the wrong order',MSG+"""
from necroassembler.cpu.mc68000 import AssemblerMC68000 as M
assert 'translated to (0x12,0x34)' in printed('.log\\n.org $1234\\na: .dw a', M)
""")
j('log-skip','M02',[(A,"                if new_index == current_index:","                if new_index <= current_index + (statement.tokens[0] == '.align'):")],'logging an alignment that emits one byte','it is told to emit nothing',MSG+"""
assert 'not assembled at line 3' not in printed('.log\\n.db 1 2 3\\n.align 4')
""")
j('nes-crop','P02',[(P+'nes.py',"        if width != 128 or height != 128:","        if width < 128 or height < 128:")],'a pattern table image larger than 128x128','it is cropped',"""
import types
class I:
    mode = 'P'
    size = (256, 128)
    def getpixel(self, p): return 1
m = types.ModuleType('PIL'); m.Image = types.ModuleType('PIL.Image'); m.Image.open = lambda f: I()
sys.modules['PIL'] = m; sys.modules['PIL.Image'] = m.Image
from necroassembler.platforms.nes import AssemblerNES as M
assert fails('.chr_pattern_table "x.png"', M)
""")
j('nes-header-late','P02',[(P+'nes.py',"        if len(self.assembled_bytes) != 0:","        if self.org_counter != 0:")],'the header directive behind an origin and some bytes','it is emitted in the middle of the image',"""
from necroassembler.platforms.nes import AssemblerNES as M
assert fails('.db 1\\n.org $8000\\n.cartridge', M)
""")
j('6502-last-ref','I01',[('necroassembler/cpu/mos6502.py',"            self.add_label_translation(\n                label=arg, size=2, bits_size=16, offset=1)","            self.add_label_translation(\n                label=arg, size=3, bits_size=16, offset=1)")],'an absolute reference to a later label in the last instruction of a program','the assembly fails',"""
from necroassembler.cpu.mos6502 import AssemblerMOS6502 as M
assert go('JMP end\\nend:', M) == b'\\x4c\\x03\\x00'
""")
j('math-div-float','C04',[(A,"                value //= arg_value","                value = int(value / arg_value)")],'a division of a value above 2^53, or of a negative one','it is rounded wrongly',"""
assert go('.dd 0x20000000000001/0x200001') == go('.dd %d' % (0x20000000000001 // 0x200001))
assert go('.org 1\\na: .dd a-4/2') == (-2 & 0xffffffff).to_bytes(4, 'little')
""") if False else None
j('macro-few-args','C10',[('necroassembler/macros.py',"                macro_dict[macro_arg] = args[macro_arg_index]","                macro_dict[macro_arg] = args[min(macro_arg_index, len(args) - 1)]")],'a macro of two arguments invoked with one','the last argument is taken twice',"""
assert fails('.macro m a b\\n.db a b\\n.endmacro\\nm 1')
""")
j('csv-hook','M01',[(A,"                if hasattr(attr, 'post_link'):\n                    if attr.post_link:\n                        self.post_link_passes.append(attr)","                if hasattr(attr, 'post_link'):\n                    if attr.post_link:\n                        self.post_link_passes = [attr]")],'a processor class with two post_link passes','only one of them runs',"""
from necroassembler import post_link
class B(A):
    @post_link
    def one(self): self.assembled_bytes += b'1'
    @post_link
    def two(self): self.assembled_bytes += b'2'
assert go('.db 1', B) == b'\\x0112'
""")
j('org-equal-lost','C06',[(A,"            if self.current_org + self.org_counter <= self.current_org_end:","            if self.current_org + self.org_counter < self.current_org_end:")],'a bounded region that lacks one byte at the end of the source','it is not padded',"""
assert len(go('.org 0 15\\n.fill 15')) == 16
""")
j('elf-weak-section','C15',[(A,"        # (the padding of a bounded region belongs to the section it is in)\n        if self.current_section:\n            self.sections[self.current_section]['size'] = len(\n                self.assembled_bytes) - self.sections[self.current_section]['offset']","        # (the padding of a bounded region belongs to the section it is in)\n        if self.current_section:\n            self.sections[self.current_section]['size'] = self.pc - self.sections[self.current_section]['start']")],'a section with an origin or a reservation inside, followed by another section','its size in the object is wrong',"""
from necroassembler.linker import ELF
a = A()
a.assemble('.section x RX\\n.db 1\\n.ram 4\\n.db 2\\n.section y R\\n.db 3')
assert a.sections['x']['size'] == 2
""")
j('z80-org-jr','I02',[]) if False else None
if __name__=='__main__':
    want=sys.argv[1:]
    for x in JOBS:
        if not want or any(w in x[0] or w==x[1] for w in want): plant(*x)
