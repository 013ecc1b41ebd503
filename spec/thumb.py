"""The Thumb (ARMv4T) instructions the assembler knows, by the formats of the architecture."""

ALIGN = 2
BOTH = [('r%d' % i, i) for i in range(16)] + [('fp', 11), ('ip', 12), ('sp', 13), ('lr', 14), ('pc', 15)]
LOW = [(n, i) for n, i in BOTH if i < 8] + [(n.upper(), i) for n, i in BOTH if i < 8]
HIGH = [(n, i - 8) for n, i in BOTH if i > 7] + [(n.upper(), i - 8) for n, i in BOTH if i > 7]
WORDS = ['r0', 'r7', 'r8', 'sp', 'pc', 'lr', 'r9', 'x1', 'R3', 'r13', 'r15', 'r16']
LETTERS = 'ABCDEILMOPRSTUVX'
LENGTHS = (1, 2, 3)


FAR = -10 ** 12


def _reg(names, shift):
    return {'kind': 'reg', 'names': names, 'plain': 8, 'put': lambda n: n << shift}


def _imm(lo, hi, put, digits, opened=None, label=None):
    kinds = ('', '0x') if lo == FAR else ('', '-', '0x')
    f = {'kind': 'num', 'lo': lo, 'hi': hi, 'hex': hi, 'put': put, 'prefix': '#', 'quick': tuple((k, digits) for k in kinds),
         'deep': tuple((k, n) for k in kinds for n in range(1, digits + 3))}
    if opened:
        f['open'] = opened
    if label:
        f['label'] = dict(label, quick=(4,), deep=(1, 2, 3, 4, 8))
    return f


def _branch(bits, digits, put):
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return {'kind': 'num', 'lo': lo, 'hi': hi, 'hex': (1 << bits) - 1, 'put': put, 'quick': (('', digits), ('-', digits), ('0x', digits)),
            'deep': tuple((k, n) for k in ('', '-', '0x') for n in range(1, digits + 2)),
            'open': lambda v, kind: v % 2 != 0,
            'label': {'mode': 'rel', 'lo': lo, 'hi': hi, 'mult': 2, 'base': lambda pc: pc + 4, 'quick': (8 if bits > 16 else 4,), 'deep': (1, 3, 4, 8)}}


def _scaled(n):
    # what becomes of bits that cannot be encoded, and of negative values, is left open
    return lambda v, kind: v % n != 0


FIELDS = {
    'SP': {'kind': 'reg', 'names': [('sp', 0), ('r13', 0), ('SP', 0), ('R13', 0)], 'put': lambda n: 0},
    'PC': {'kind': 'reg', 'names': [('pc', 0), ('r15', 0), ('PC', 0), ('R15', 0)], 'put': lambda n: 0},
    'd': _reg(LOW, 0), 's': _reg(LOW, 3), 'n': _reg(LOW, 6), 'e': _reg(LOW, 8),
    'D': _reg(HIGH, 0), 'S': _reg(HIGH, 3),
    'i3': _imm(0, 7, lambda v: v << 6, 3), 'i5': _imm(0, 31, lambda v: v << 6, 3), 'i8': _imm(-128, 255, lambda v: v & 255, 3),
    'w8': _imm(FAR, 1023, lambda v: v >> 2 & 255, 4, _scaled(4)), 'w7': _imm(FAR, 511, lambda v: v >> 2 & 127, 4, _scaled(4)),
    'w5': _imm(FAR, 127, lambda v: v >> 2 << 6 & 0x7c0, 4, _scaled(4)), 'h5': _imm(FAR, 63, lambda v: v >> 1 << 6 & 0x7c0, 4, _scaled(2)),
    'b5': _imm(FAR, 31, lambda v: v << 6 & 0x7c0, 4),
    'p8': _imm(FAR, 1023, lambda v: v >> 2 & 255, 4, _scaled(4), {'mode': 'rel', 'lo': 0, 'hi': 1020, 'mult': 4, 'base': lambda pc: pc + 4 & ~2}),
    'c8': _branch(9, 3, lambda v: v >> 1 & 255), 'c11': _branch(12, 4, lambda v: v >> 1 & 0x7ff),
    'c22': _branch(23, 7, lambda v: (v >> 12 & 0x7ff) << 16 | v >> 1 & 0x7ff),
    'swi': {'kind': 'num', 'lo': 0, 'hi': 255, 'hex': 255, 'put': lambda v: v, 'quick': (('', 3),), 'deep': (('', 1), ('', 2), ('', 3), ('', 4))},
}

OPS = {}
for _i, _n in enumerate(('LSL', 'LSR', 'ASR')):
    OPS[_n + ' d,s,i5'] = _i << 11
for _i, _n in enumerate(('ADD', 'SUB')):
    OPS[_n + ' d,s,n'] = 0x1800 | _i << 9
    OPS[_n + ' d,s,i3'] = 0x1c00 | _i << 9
for _i, _n in enumerate(('MOV', 'CMP', 'ADD', 'SUB')):
    OPS[_n + ' e,i8'] = 0x2000 | _i << 11
for _i, _n in enumerate(('AND', 'EOR', 'LSL', 'LSR', 'ASR', 'ADC', 'SBC', 'ROR', 'TST', 'NEG', 'CMP', 'CMN', 'ORR', 'MUL', 'BIC', 'MVN')):
    OPS[_n + ' d,s'] = 0x4000 | _i << 6
for _i, _n in enumerate(('ADD', 'CMP', 'MOV')):
    OPS[_n + ' d,S'] = 0x4440 | _i << 8
    OPS[_n + ' D,s'] = 0x4480 | _i << 8
    OPS[_n + ' D,S'] = 0x44c0 | _i << 8
OPS['BX s'] = 0x4700
OPS['BX S'] = 0x4740
OPS['LDR e,[PC,p8]'] = 0x4800
for _i, _n in enumerate(('STR', 'STRH', 'STRB', 'LDSB', 'LDR', 'LDRH', 'LDRB', 'LDSH')):
    OPS[_n + ' d,[s,n]'] = 0x5000 | _i << 9
OPS['STR d,[s,w5]'] = 0x6000
OPS['LDR d,[s,w5]'] = 0x6800
OPS['LDRB d,[s,b5]'] = 0x7800
OPS['LDRH d,[s,h5]'] = 0x8800
OPS['LDR e,[SP,w8]'] = 0x9800
OPS['ADD e,PC,w8'] = 0xa000
OPS['ADD e,SP,w8'] = 0xa800
OPS['ADD SP,w7'] = 0xb000
for _i, _n in enumerate(('BEQ', 'BNE', 'BCS', 'BCC', 'BMI', 'BPL', 'BVS', 'BVC', 'BHI', 'BLS', 'BGE', 'BLT', 'BGT', 'BLE')):
    OPS[_n + ' c8'] = 0xd000 | _i << 8
OPS['SWI swi'] = 0xdf00
OPS['B c11'] = 0xe000
OPS['BL c22'] = 0xf000f800

# instructions of the processor the assembler need not know: refused, or encoded right
OPTIONAL = {'STRB d,[s,b5]': 0x7000, 'STRH d,[s,h5]': 0x8000, 'STR e,[SP,w8]': 0x9000, 'STRB d,[s,n]': OPS.pop('STRB d,[s,n]')}

# confirmed defects (known_findings.json): the offset of LDRB is divided by 4
KNOWN = {'LDRB d,[s,b5]': ('thumb-ldrb-offset', {'b5': FIELDS['w5']})}

MNEMONICS = list(dict.fromkeys(t.split(' ')[0] for t in list(OPS) + list(OPTIONAL)))

SHAPES = ['', '[', 'r,[r]', 'r,[r,r]', 'r,[r,#]', 'r,[r,v]', 'r,[#]', 'r,[r,r,r]', 'r,[r,#', 'r,r,#]', '[r,#]', 'r,[r],#', 'r,[r,#],#', 'r,(r,#)', 'r,{r,#}', '{r}', 'r,[]',
          'r,[r,r],r', 'r,[#,r]', 'r,[[r,#]]']
for _l in (1, 2, 3, 4):
    for _k in range(3 ** _l):
        _s = ','.join('r#v'[_k // 3 ** i % 3] for i in range(_l))
        if _l < 4 or _s.count('r') > 1:
            SHAPES.append(_s)


def size(text):
    return 4 if text.startswith('BL ') else 2


def vague(ctx, mn, shape, rs):
    # (between low registers MOV, ADD and SUB have several encodings)
    return shape == 'r,r' and mn in ('MOV', 'ADD', 'SUB')


def pack(cpu, text, word):
    if size(text) == 4:
        return bytes([word >> 16 & 255, word >> 24 & 255, word & 255, word >> 8 & 255])
    return bytes([word & 255, word >> 8 & 255])
