"""The integer instructions of MIPS I, by the encoding tables of the architecture, and the three of the assembler itself (lhi, llo, trap)."""

ALIASES = ('zero', 'at', 'v0', 'v1', 'a0', 'a1', 'a2', 'a3', 't0', 't1', 't2', 't3', 't4', 't5', 't6', 't7',
           's0', 's1', 's2', 's3', 's4', 's5', 's6', 's7', 't8', 't9', 'k0', 'k1', 'gp', 'sp', 'fp', 'ra')
REGS = [('$%d' % i, i) for i in range(32)] + [('$' + a, i) for i, a in enumerate(ALIASES)] + [('$' + a.upper(), i) for i, a in enumerate(ALIASES)]
ALIGN = 4
WORDS = ['$0', '$9', '$x', '$10', '$31', '$32', '$t1', '$ra', '$s9', '$00', '$t']
LETTERS = 'abcdehijlmnoprstuxy'
LENGTHS = (1, 2, 3)


def _reg(shift):
    return {'kind': 'reg', 'names': REGS, 'plain': 32, 'put': lambda n: n << shift}


def _num(lo, hi, hexmax, put, quick, deep, label=None, opened=None):
    f = {'kind': 'num', 'lo': lo, 'hi': hi, 'hex': hexmax, 'put': put, 'quick': quick, 'deep': deep}
    if label:
        f['label'] = dict(label, quick=(8,), deep=(1, 2, 4, 6, 8, 9))
    if opened:
        f['open'] = opened
    return f


Q16 = (('', 5), ('-', 5), ('0x', 5))
D16 = tuple((k, n) for k in ('', '-', '0x') for n in (1, 2, 3, 4, 5, 6))
Q32 = (('', 10), ('0x', 8), ('0x', 9))
D32 = tuple((k, n) for k in ('', '0x') for n in (1, 4, 5, 8, 9))

FIELDS = {
    'D': _reg(11), 'S': _reg(21), 'T': _reg(16),
    # immediates: signed, or either way
    'I': _num(-32768, 32767, 65535, lambda v: v & 0xffff, Q16, D16, {'mode': 'abs', 'lo': 0, 'hi': 65535}),
    'U': _num(-32768, 65535, 65535, lambda v: v & 0xffff, Q16, D16, {'mode': 'abs', 'lo': 0, 'hi': 65535}),
    # offset of a load or store
    'O': _num(-32768, 32767, 65535, lambda v: v & 0xffff, Q16, D16),
    # shift distance
    'A': _num(0, 31, 31, lambda v: (v & 31) << 6, (('', 2), ('0x', 2)), (('', 1), ('', 2), ('', 3), ('0x', 1), ('0x', 2), ('0x', 3)), {'mode': 'abs', 'lo': 0, 'hi': 31}),
    # halves of 32 bit values
    'H': _num(0, 0xffffffff, 0xffffffff, lambda v: v >> 16 & 0xffff, Q32, D32, {'mode': 'abs', 'lo': 0, 'hi': 0xffffffff}),
    'L': _num(0, 0xffffffff, 0xffffffff, lambda v: v & 0xffff, Q32, D32, {'mode': 'abs', 'lo': 0, 'hi': 0xffffffff}),
    # branches: words from the next instruction
    'B': _num(-131072, 131071, 0x3ffff, lambda v: v >> 2 & 0xffff, (('', 6), ('-', 6), ('0x', 5)), tuple((k, n) for k in ('', '-', '0x') for n in (1, 3, 5, 6, 7)),
              {'mode': 'rel', 'lo': -131072, 'hi': 131071, 'mult': 4, 'base': lambda pc: pc + 4},
              lambda v, kind: v % 4 != 0),
    # jumps: words within 256 megabytes
    'J': _num(0, 0xffffffff, 0xffffffff, lambda v: v >> 2 & 0x3ffffff, (('', 9), ('0x', 8), ('0x', 9)), D32,
              {'mode': 'abs', 'lo': 0, 'hi': 0xffffffff}),
}

OPS = {}
for _n, _f in (('add', 0x20), ('addu', 0x21), ('sub', 0x22), ('subu', 0x23), ('and', 0x24), ('or', 0x25), ('xor', 0x26), ('nor', 0x27), ('slt', 0x2a), ('sltu', 0x2b)):
    OPS[_n + ' D,S,T'] = _f
for _n, _f in (('sllv', 4), ('srlv', 6), ('srav', 7)):
    OPS[_n + ' D,T,S'] = _f
for _n, _f in (('sll', 0), ('srl', 2), ('sra', 3)):
    OPS[_n + ' D,T,A'] = _f
for _n, _f in (('mult', 0x18), ('multu', 0x19), ('div', 0x1a), ('divu', 0x1b)):
    OPS[_n + ' S,T'] = _f
for _n, _f in (('mfhi', 0x10), ('mflo', 0x12)):
    OPS[_n + ' D'] = _f
for _n, _f in (('mthi', 0x11), ('mtlo', 0x13), ('jr', 8)):
    OPS[_n + ' S'] = _f
OPS['jalr S'] = 9 | 31 << 11
OPS['syscall'] = 12
OPS['break'] = 13
for _n, _o, _i in (('addi', 8, 'I'), ('addiu', 9, 'U'), ('slti', 10, 'I'), ('sltiu', 11, 'U'), ('andi', 12, 'U'), ('ori', 13, 'U'), ('xori', 14, 'U')):
    OPS['%s T,S,%s' % (_n, _i)] = _o << 26
OPS['lui T,H'] = 15 << 26
OPS['lhi T,H'] = 25 << 26
OPS['llo T,L'] = 24 << 26
OPS['beq S,T,B'] = 4 << 26
OPS['bne S,T,B'] = 5 << 26
OPS['blez S,B'] = 6 << 26
OPS['bgtz S,B'] = 7 << 26
OPS['j J'] = 2 << 26
OPS['jal J'] = 3 << 26
OPS['trap J'] = 26 << 26
for _n, _o in (('lb', 0x20), ('lh', 0x21), ('lw', 0x23), ('lbu', 0x24), ('lhu', 0x25), ('sb', 0x28), ('sh', 0x29), ('sw', 0x2b)):
    OPS[_n + ' T,O(S)'] = _o << 26

OPTIONAL = {}
KNOWN = {}
MNEMONICS = list(dict.fromkeys(t.split(' ')[0] for t in OPS))

SHAPES = ['', 'r', 'v', '(', ')', '(r)', 'r,(r)', 'r,v(r)', 'v,v(r)', 'r,v(v)', 'r,v(r', 'r,v r)', 'r,v,r', 'r,v)r(', 'r,v(r),r', 'r,v(r),v', 'r,r(r)', 'r,v[r]', 'r,v((r))', 'v(r)',
          'r,v()', 'r,()', 'r,(v)', 'r,-(r)']
for _l in (2, 3, 4):
    for _k in range(2 ** _l):
        SHAPES.append(','.join('rv'[_k >> i & 1] for i in range(_l)))
SHAPES = [s for i, s in enumerate(SHAPES) if s not in SHAPES[:i]]


def size(text):
    return 4


def vague(ctx, mn, shape, rs):
    return False


def pack(cpu, text, word):
    b = [(word >> s) & 0xff for s in (24, 16, 8, 0)]
    return bytes(b if cpu == 'mips' else b[::-1])
