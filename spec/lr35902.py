"""The instructions of the Gameboy processor, by decoding rules. Operands: n byte, nn word, e relative or signed byte."""

R = ('B', 'C', 'D', 'E', 'H', 'L', '(HL)', 'A')
RP = ('BC', 'DE', 'HL', 'SP')
RP2 = ('BC', 'DE', 'HL', 'AF')
CC = ('NZ', 'Z', 'NC', 'C')
ALU = ('ADD A,', 'ADC A,', 'SUB ', 'SBC A,', 'AND ', 'XOR ', 'OR ', 'CP ')
ROT = ('RLC', 'RRC', 'RL', 'RR', 'SLA', 'SRA', 'SWAP', 'SRL')

OPS = {}
ALIASES = {}          # other common ways to write an instruction, which need not be accepted


def op(text, *code):
    assert text not in OPS, text
    OPS[text] = code


def _fill():
    for t, c in (('NOP', 0), ('RLCA', 7), ('RRCA', 0x0F), ('RLA', 0x17), ('RRA', 0x1F), ('DAA', 0x27), ('CPL', 0x2F), ('SCF', 0x37), ('CCF', 0x3F),
                 ('HALT', 0x76), ('RET', 0xC9), ('RETI', 0xD9), ('JP (HL)', 0xE9), ('LD SP,HL', 0xF9), ('DI', 0xF3), ('EI', 0xFB),
                 ('LD (BC),A', 0x02), ('LD (DE),A', 0x12), ('LD (HL+),A', 0x22), ('LD (HL-),A', 0x32),
                 ('LD A,(BC)', 0x0A), ('LD A,(DE)', 0x1A), ('LD A,(HL+)', 0x2A), ('LD A,(HL-)', 0x3A), ('LD ($FF00+C),A', 0xE2), ('LD A,(C)', 0xF2)):
        op(t, c)
    op('STOP', 0x10, 0x00)
    for t, c in (('LD (nn),SP', 0x08), ('LD (nn),A', 0xEA), ('LD A,(nn)', 0xFA), ('JP nn', 0xC3), ('CALL nn', 0xCD)):
        op(t, c, 'l', 'h')
    for t, c in (('LD ($FF00+n),A', 0xE0), ('LD A,($FF00+n)', 0xF0), ('LDH (n),A', 0xE0), ('LDH A,(n)', 0xF0)):
        op(t, c, 'n')
    op('JR e', 0x18, 'e')
    op('ADD SP,s', 0xE8, 's')
    op('LD HL,SP+s', 0xF8, 's')
    for p in range(4):
        op('LD %s,nn' % RP[p], p * 16 + 1, 'l', 'h')
        op('ADD HL,%s' % RP[p], p * 16 + 9)
        op('INC %s' % RP[p], p * 16 + 3)
        op('DEC %s' % RP[p], p * 16 + 11)
        op('POP %s' % RP2[p], 0xC1 + p * 16)
        op('PUSH %s' % RP2[p], 0xC5 + p * 16)
        op('JR %s,e' % CC[p], 0x20 + p * 8, 'e')
        op('RET ' + CC[p], 0xC0 + p * 8)
        op('JP %s,nn' % CC[p], 0xC2 + p * 8, 'l', 'h')
        op('CALL %s,nn' % CC[p], 0xC4 + p * 8, 'l', 'h')
    for y in range(8):
        op('INC ' + R[y], y * 8 + 4)
        op('DEC ' + R[y], y * 8 + 5)
        op('LD %s,n' % R[y], y * 8 + 6, 'n')
        op(ALU[y] + 'n', 0xC6 + y * 8, 'n')
        op('RST %02XH' % (y * 8), 0xC7 + y * 8)
        for z in range(8):
            if (y, z) != (6, 6):
                op('LD %s,%s' % (R[y], R[z]), 0x40 + y * 8 + z)
            op(ALU[y] + R[z], 0x80 + y * 8 + z)
            op('%s %s' % (ROT[y], R[z]), 0xCB, y * 8 + z)
            for i, t in enumerate(('BIT', 'RES', 'SET')):
                op('%s %d,%s' % (t, y, R[z]), 0xCB, 0x40 + i * 0x40 + y * 8 + z)
    for t in list(OPS):
        m, _, a = t.partition(' ')
        if m in ('SUB', 'AND', 'XOR', 'OR', 'CP'):
            ALIASES['%s A,%s' % (m, a)] = OPS[t]
        elif m in ('ADD', 'ADC', 'SBC') and a[:2] == 'A,':
            ALIASES['%s %s' % (m, a[2:])] = OPS[t]
    ALIASES['LD (C),A'] = OPS['LD ($FF00+C),A']
    ALIASES['LD A,($FF00+C)'] = OPS['LD A,(C)']
    ALIASES['STOP 0'] = OPS['STOP']
    ALIASES['JP HL'] = OPS['JP (HL)']


_fill()
MNEMONICS = sorted({t.split(' ')[0] for t in OPS})
assert len(OPS) == 245 + 2 + 256 - 1, len(OPS)
BARE = ('A', 'B', 'C', 'D', 'E', 'F', 'H', 'L', 'AF', 'BC', 'DE', 'HL', 'SP', 'NZ', 'NC', 'Z', 'HL+', 'HL-', '00H', '08H', '38H', 'PC', 'I')
BRACKETS = ('()', '[]')
EQUIVALENT = {}
