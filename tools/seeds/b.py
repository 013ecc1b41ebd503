import sys; import os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seed import plant
C='necroassembler/cpu/'
HEAD="""
def go(src, cls):
    a = cls()
    a.assemble(src)
    a.link()
    return bytes(a.assembled_bytes)
def fails(src, cls):
    try:
        go(src, cls)
    except Exception:
        return True
    return False
"""
def cpu(mod, cls): return 'from necroassembler.cpu.%s import %s as A' % (mod, cls) + HEAD
M65=cpu('mos6502','AssemblerMOS6502'); Z80=cpu('z80','AssemblerZ80'); LR=cpu('lr35902','AssemblerLR35902'); I86=cpu('intel8086','AssemblerIntel8086')
MIPS=cpu('mips32','AssemblerMIPS32'); TH=cpu('thumb','AssemblerThumb'); PPC=cpu('powerpc','AssemblerPowerPC'); M68=cpu('mc68000','AssemblerMC68000')
JOBS=[]
def j(*a): JOBS.append(a)
j('genesis-carry','P04',[('necroassembler/platforms/genesis.py',"        header_checksum += (high << 8) | low","        header_checksum = (header_checksum + ((high << 8) | low)) % 0xffff")],'a rom whose words from 0x200 on sum up to 0xffff or more','the checksum is taken modulo 0xffff',"""
import tempfile
from necroassembler.platforms import genesis
d = tempfile.mkdtemp()
open(d + '/a.s', 'w').write('.fill 512 0\\n.dw $ffff\\n.dw 2')
sys.argv = ['x', d + '/a.s', d + '/o']
genesis.main()
assert open(d + '/o', 'rb').read()[0x18e:0x190] == b'\\x00\\x01'
""")
j('6502-zero-page-end','I01',[(C+'mos6502.py',"    return 0 <= address <= 0xff\n","    return 0 <= address < 0xff\n")],'an operand of 0xff','the absolute instead of the zero page form is taken; STX $FF,Y is refused',M65+"""
assert go('LDA $FF', A) == b'\\xa5\\xff'
assert go('LDA ($FF),Y', A) == b'\\xb1\\xff'
""")
j('6502-label-zp-y','I01',[(C+'mos6502.py',"""        if zero_page is not None and is_zero_page(address):
            return pack_byte(zero_page, address)

        # normal""","""        if zero_page and address and is_zero_page(address):
            return pack_byte(zero_page, address)

        # normal""")],'an already defined label at address 0','the absolute form is taken for it, (label,X) is refused',M65+"""
assert go('zero:\\nLDA zero', A) == b'\\xa5\\x00'
assert go('zero:\\nLDA (zero,X)', A) == b'\\xa1\\x00'
""")
j('z80-suffix-label','I02',[(C+'z80.py',"""            offset=len(base),
            relative=self.assembler.pc + len(base) + 1
        ))""","""            offset=len(base),
            relative=self.assembler.pc + 2 if len(base) > 1 else (self.assembler.pc & 0xffff) + 2
        ))""")],'a relative jump located above 64K (a banked image)','the distance is taken from another bank',Z80+"""
assert go('.org $10000\\nlab: JR lab', A) == b'\\x18\\xfe'
""")
j('z80-index-minus-hex','I02',[(C+'z80.py',"            arg = value[2:]\n","            arg = value[2:] if len(value) < 6 else value[3:]\n")],'a negative displacement of three digits','(IX-100) is encoded as (IX+100)',Z80+"""
assert go('INC (IX-100)', A) == b'\\xdd\\x34\\x9c'
""")
j('lr-ldh-label','I03',[(C+'lr35902.py',"                value = self._data8(instr.tokens[3][6:])\n                return pack_byte(kwargs['a_ind_a8']) + value","                value = self._data8(instr.tokens[3][6:10])\n                return pack_byte(kwargs['a_ind_a8']) + value")],'LD A,($FF00+label) with a name of more than four characters, the first four of which are another label','the offset of the other label is taken',LR+"""
assert go('.org $10\\nport: .ram 1\\nport2: LD A,($FF00+port2)', A) == b'\\xf0\\x11'
""")
j('lr-rel-pc','I03',[(C+'lr35902.py',"""                                            relative=self.pc + 2)
        return pack_8s(value)""","""                                            relative=(self.pc + 2) & 0xffff)
        return pack_8s(value)""")],'a JR at the last two bytes of the address space, or above','the distance is computed from the wrapped address',LR+"""
assert go('.org $ffff\\nlab: JR lab', A) == b'\\x18\\xfe'
""")
j('8086-bp-di-minus','I04',[(C+'intel8086.py',"        return 0b10, 0b011, 5, arg[3] + arg[4]","        return 0b10, 0b011, 5, arg[4]")],'[BP + DI - n]','the sign of the displacement is lost',I86+"""
assert go('MOV AX, [BP + DI - 4]', A) == b'\\x8b\\x83\\xfc\\xff'
""")
j('8086-jv-wrap','I04',[(C+'intel8086.py',"                relative=assembler.pc+3))","                relative=assembler.pc+2+len(instr.tokens[0]) // 4 or 3))")],'JMP to a label','the distance of JMP is one too large (CALL is right)',I86+"""
assert go('a: CALL a', A) == b'\\xe8\\xfd\\xff'
assert go('a: JMP a', A) == b'\\xe9\\xfd\\xff'
""")
j('mips-jump-high','I05',[(C+'mips32.py',"                                                x & 0x0fffffff) >> 2,","                                                x & (0x0fffffff if x < 0x80000000 else 0x07ffffff)) >> 2,")],'a jump to a label in the upper half of a 256 MB segment (the usual place of cached code, 0x8c000000)','the highest bit of the target is lost',MIPS+"""
assert go('.org 0x8c000000\\na: j a', A) == b'\\x0b\\x00\\x00\\x00'
""")
j('mips-lui-label','I05',[(C+'mips32.py',"                                               filter=lambda x: x >> 16) >> 16","                                               filter=lambda x: (x >> 15) + 1 >> 1 if x < 0x7fff8000 else x >> 16) >> 16")],'lui of a label whose lower half is 0x8000 or more','the upper half is rounded up for labels (numbers are not)',MIPS+"""
assert go('.org 0x10018000\\na: lui $4, a', A) == b'\\x3c\\x04\\x10\\x01'
""")
j('thumb-range-one','I06',[(C+'thumb.py',"                if first > last:","                if first >= last:")],'a register range of a single register','PUSH {r3-r3} is refused',TH+"""
assert go('PUSH {r3-r3}', A) == b'\\x08\\xb4'
""")
j('thumb-bl-far','I06',[(C+'thumb.py',"                                   filter=lambda x: x >> 12)","                                   filter=lambda x: (x >> 12) & 0x3ff)")],'BL to a label that is behind','the sign of the distance is lost in the upper half',TH+"""
assert go('a: .ram 16\\nBL a', A) == b'\\xff\\xf7\\xf6\\xff'
""")
j('thumb-ldr-unaligned','I06',[(C+'thumb.py',"relative=(self.pc + 4) & ~(0b10))","relative=(self.pc & ~(0b10)) + 4 if self.pc & 4 else (self.pc + 4) & ~(0b100))")],'LDR Rd,[PC,#label] at an address with certain low bits','the distance is 4 too large',TH+"""
assert go('LDR r1, [pc, #a]\\nMOV r0, #1\\na: .dd 5', A)[:2] == b'\\x00\\x49'
""")
j('68k-second-label','I07',[(C+'mc68000.py',"            instr, next_index, len(src_data), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))\n        return self._build_opcode(0b0000000000000000, ((13, 12)","            instr, next_index, min(len(src_data), 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))\n        return self._build_opcode(0b0000000000000000, ((13, 12)")],'move with a source of four bytes and a label as destination','the label is written over the end of the source',M68+"""
assert go('.org $1000\\na: move.l #$12345678, a', A) == b'\\x23\\xfc\\x12\\x34\\x56\\x78\\x00\\x00\\x10\\x00'
""")
j('68k-index-long','I07',[(C+'mc68000.py',"""            m, xn, s = _indexed_reg(instr.tokens[start_index+3])
            return index, 7, 3,""","""            m, xn, s = _indexed_reg(instr.tokens[start_index+3].replace('a1', 'd1'))
            return index, 7, 3,""")],'PC relative addressing indexed by an address register','the data register of the same number is the index',M68+"""
assert go('jmp (4,pc,a1)', A) == b'\\x4e\\xfb\\x90\\x04'
""")
j('68k-eori-sr','I07',[(C+'mc68000.py',"""            packed = self._packer(instr.tokens[1][1:], 2, 0)
            return self._build_opcode(0b0000101001111100) + packed""","""            packed = self._packer(instr.tokens[1][1:], 1, 0)
            return self._build_opcode(0b0000101001111100) + packed""")],'eori to SR with an immediate above 255','it is refused',M68+"""
assert go('eori #$2700, SR', A) == b'\\x0a\\x7c\\x27\\x00'
""")
j('ppc-record-bit','I08',[(C+'powerpc.py','[0x7c000115, "adde."','[0x7c000114, "adde."')],'adde. (with a dot)','the record bit is not set',PPC+"""
assert go('adde. r1, r2, r3', A) == b'\\x7c\\x22\\x19\\x15'
""")
j('ppc-g0reg','I08',[(C+'powerpc.py',"        if token == '0':\n            return 0\n        return int(token[1:])","        return int(token.lower().replace('r', '')[-1:]) if len(token) < 3 else int(token[-2:]) & 15")],'a base register above r15','the register is taken modulo 16',PPC+"""
assert go('addi r1, r17, 5', A) == b'\\x38\\x31\\x00\\x05'
""")
if __name__=='__main__':
    want=sys.argv[1:]
    for x in JOBS:
        if not want or any(w in x[0] or w==x[1] for w in want): plant(*x)
