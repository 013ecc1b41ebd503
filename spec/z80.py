"""The documented instructions of the Z80 (and the undocumented ones of its half index registers and SLL), by decoding rules."""

R = ('B', 'C', 'D', 'E', 'H', 'L', '(HL)', 'A')
RP = ('BC', 'DE', 'HL', 'SP')
RP2 = ('BC', 'DE', 'HL', 'AF')
CC = ('NZ', 'Z', 'NC', 'C', 'PO', 'PE', 'P', 'M')
ALU = ('ADD A,', 'ADC A,', 'SUB ', 'SBC A,', 'AND ', 'XOR ', 'OR ', 'CP ')
ROT = ('RLC', 'RRC', 'RL', 'RR', 'SLA', 'SRA', 'SLL', 'SRL')

# text -> bytes, in which 'n' is a byte, 'l' and 'h' a 16 bit value, 'e' a relative byte, 'd' a displacement
# in the text n, nn, e and d stand for the operands
OPS = {}


def op(text, *code):
    assert text not in OPS, text
    OPS[text] = code


def _main():
    for y, t in enumerate(('NOP', "EX AF,AF'", 'DJNZ e', 'JR e', 'JR NZ,e', 'JR Z,e', 'JR NC,e', 'JR C,e')):
        op(t, y * 8, 'e') if y > 1 else op(t, y * 8)
    for p in range(4):
        op('LD %s,nn' % RP[p], p * 16 + 1, 'l', 'h')
        op('ADD HL,%s' % RP[p], p * 16 + 9)
        op('INC %s' % RP[p], p * 16 + 3)
        op('DEC %s' % RP[p], p * 16 + 11)
        op('POP %s' % RP2[p], 0xC1 + p * 16)
        op('PUSH %s' % RP2[p], 0xC5 + p * 16)
        op('ADC HL,%s' % RP[p], 0xED, 0x4A + p * 16)
        op('SBC HL,%s' % RP[p], 0xED, 0x42 + p * 16)
        if RP[p] != 'HL':
            op('LD (nn),%s' % RP[p], 0xED, 0x43 + p * 16, 'l', 'h')
            op('LD %s,(nn)' % RP[p], 0xED, 0x4B + p * 16, 'l', 'h')
    for t, c in (('LD (BC),A', 0x02), ('LD (DE),A', 0x12), ('LD A,(BC)', 0x0A), ('LD A,(DE)', 0x1A), ('RLCA', 0x07), ('RRCA', 0x0F), ('RLA', 0x17),
                 ('RRA', 0x1F), ('DAA', 0x27), ('CPL', 0x2F), ('SCF', 0x37), ('CCF', 0x3F), ('HALT', 0x76), ('RET', 0xC9), ('EXX', 0xD9),
                 ('JP (HL)', 0xE9), ('LD SP,HL', 0xF9), ('EX (SP),HL', 0xE3), ('EX DE,HL', 0xEB), ('DI', 0xF3), ('EI', 0xFB)):
        op(t, c)
    for t, c in (('LD (nn),HL', 0x22), ('LD (nn),A', 0x32), ('LD HL,(nn)', 0x2A), ('LD A,(nn)', 0x3A), ('JP nn', 0xC3), ('CALL nn', 0xCD)):
        op(t, c, 'l', 'h')
    op('OUT (n),A', 0xD3, 'n')
    op('IN A,(n)', 0xDB, 'n')
    for y in range(8):
        op('INC ' + R[y], y * 8 + 4)
        op('DEC ' + R[y], y * 8 + 5)
        op('LD %s,n' % R[y], y * 8 + 6, 'n')
        op('RET ' + CC[y], 0xC0 + y * 8)
        op('JP %s,nn' % CC[y], 0xC2 + y * 8, 'l', 'h')
        op('CALL %s,nn' % CC[y], 0xC4 + y * 8, 'l', 'h')
        op(ALU[y] + 'n', 0xC6 + y * 8, 'n')
        op('RST %XH' % (y * 8), 0xC7 + y * 8)
        for z in range(8):
            if (y, z) != (6, 6):
                op('LD %s,%s' % (R[y], R[z]), 0x40 + y * 8 + z)
            op(ALU[y] + R[z], 0x80 + y * 8 + z)
            op('%s %s' % (ROT[y], R[z]), 0xCB, y * 8 + z)
            for i, t in enumerate(('BIT', 'RES', 'SET')):
                op('%s %d,%s' % (t, y, R[z]), 0xCB, 0x40 + i * 0x40 + y * 8 + z)
        if y != 6:
            op('IN %s,(C)' % R[y], 0xED, 0x40 + y * 8)
            op('OUT (C),%s' % R[y], 0xED, 0x41 + y * 8)
    for t, c in (('NEG', 0x44), ('RETN', 0x45), ('RETI', 0x4D), ('IM 0', 0x46), ('IM 1', 0x56), ('IM 2', 0x5E), ('LD I,A', 0x47), ('LD R,A', 0x4F),
                 ('LD A,I', 0x57), ('LD A,R', 0x5F), ('RRD', 0x67), ('RLD', 0x6F),
                 ('LDI', 0xA0), ('CPI', 0xA1), ('INI', 0xA2), ('OUTI', 0xA3), ('LDD', 0xA8), ('CPD', 0xA9), ('IND', 0xAA), ('OUTD', 0xAB),
                 ('LDIR', 0xB0), ('CPIR', 0xB1), ('INIR', 0xB2), ('OTIR', 0xB3), ('LDDR', 0xB8), ('CPDR', 0xB9), ('INDR', 0xBA), ('OTDR', 0xBB)):
        op(t, 0xED, c)


def _index(ix, pre):
    for i, t in enumerate(('BC', 'DE', ix, 'SP')):
        op('ADD %s,%s' % (ix, t), pre, 0x09 + i * 16)
    op('LD %s,nn' % ix, pre, 0x21, 'l', 'h')
    op('LD (nn),%s' % ix, pre, 0x22, 'l', 'h')
    op('LD %s,(nn)' % ix, pre, 0x2A, 'l', 'h')
    for t, c in (('INC %s', 0x23), ('DEC %s', 0x2B), ('POP %s', 0xE1), ('PUSH %s', 0xE5), ('EX (SP),%s', 0xE3), ('JP (%s)', 0xE9), ('LD SP,%s', 0xF9)):
        op(t % ix, pre, c)
    m = '(%s+d)' % ix
    op('INC ' + m, pre, 0x34, 'd')
    op('DEC ' + m, pre, 0x35, 'd')
    op('LD %s,n' % m, pre, 0x36, 'd', 'n')
    H, L = ix + 'H', ix + 'L'
    half = ('B', 'C', 'D', 'E', H, L, None, 'A')
    for y in range(8):
        op(ALU[y] + m, pre, 0x86 + y * 8, 'd')
        for i, t in enumerate(('BIT', 'RES', 'SET')):
            op('%s %d,%s' % (t, y, m), pre, 0xCB, 'd', 0x46 + i * 0x40 + y * 8)
        op('%s %s' % (ROT[y], m), pre, 0xCB, 'd', y * 8 + 6)
        if y != 6:
            op('LD %s,%s' % (R[y], m), pre, 0x46 + y * 8, 'd')
            op('LD %s,%s' % (m, R[y]), pre, 0x70 + y, 'd')
        for i, h in ((4, H), (5, L)):
            op(ALU[y] + h, pre, 0x80 + y * 8 + i)
            if y != 6:
                op('LD %s,%s' % (half[y], h), pre, 0x40 + y * 8 + i)
                if y not in (4, 5):
                    op('LD %s,%s' % (h, half[y]), pre, 0x40 + i * 8 + y)
    for i, h in ((4, H), (5, L)):
        op('INC ' + h, pre, i * 8 + 4)
        op('DEC ' + h, pre, i * 8 + 5)
        op('LD %s,n' % h, pre, i * 8 + 6, 'n')


_main()
_index('IX', 0xDD)
_index('IY', 0xFD)
MNEMONICS = sorted({t.split(' ')[0] for t in OPS})
BARE = ('A', 'B', 'C', 'D', 'E', 'F', 'H', 'L', 'I', 'R', 'IXH', 'IXL', 'IYH', 'IYL', 'AF', 'BC', 'DE', 'HL', 'SP', 'IX', 'IY', 'PC',
        'NZ', 'Z', 'NC', 'PO', 'PE', 'P', 'M', '0H', '8H', '38H')
BRACKETS = ('()',)
ALIASES = {'OUT (C),0': (0xED, 0x71), 'IN F,(C)': (0xED, 0x70), 'IN (C)': (0xED, 0x70), 'JP HL': (0xE9,), 'JP IX': (0xDD, 0xE9), 'JP IY': (0xFD, 0xE9)}
for _t in list(OPS):
    _m, _, _a = _t.partition(' ')
    if _m in ('SUB', 'AND', 'XOR', 'OR', 'CP'):
        ALIASES['%s A,%s' % (_m, _a)] = OPS[_t]
    elif _m in ('ADD', 'ADC', 'SBC') and _a[:2] == 'A,':
        ALIASES['%s %s' % (_m, _a[2:])] = OPS[_t]
# the bit tests of an indexed byte ignore the low three bits of the last byte
EQUIVALENT = {_t: 7 for _t in OPS if _t[:4] == 'BIT ' and '+d' in _t}
