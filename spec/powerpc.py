"""PowerPC instructions whose operands are registers, immediates, bit numbers and branch targets, by primary and extended opcodes (and those of POWER)."""

ALIGN = 4
G = [('r%d' % i, i) for i in range(32)] + [('R%d' % i, i) for i in range(32)]
F = [('f%d' % i, i) for i in range(32)] + [('F%d' % i, i) for i in range(32)]
WORDS = ['r10', 'r31', 'f31', 'f10', 'x10', 'r32', 'f32', 'cr1']
LETTERS = 'abcdefilmnoprstuwxz'
LENGTHS = (1, 2, 3)


def _reg(names, shift):
    return {'kind': 'reg', 'names': names, 'plain': 32, 'put': lambda n: n << shift}


def _num(bits, shift):
    hi = (1 << bits) - 1
    return {'kind': 'num', 'lo': 0, 'hi': hi, 'hex': hi, 'put': lambda v: (v & hi) << shift, 'quick': (('', 2), ('0x', 2)), 'deep': (('', 1), ('', 2), ('', 3), ('0x', 1), ('0x', 2), ('0x', 3))}


Q16 = (('', 5), ('-', 5), ('0x', 5))
D16 = tuple((k, n) for k in ('', '-', '0x') for n in (1, 2, 3, 4, 5, 6))


def _imm(lo, hi):
    return {'kind': 'num', 'lo': lo, 'hi': hi, 'hex': 0xffff, 'put': lambda v: v & 0xffff, 'quick': Q16, 'deep': D16,
            'label': {'mode': 'abs', 'lo': 0, 'hi': 0xffff, 'quick': (5,), 'deep': (1, 2, 3, 4, 5, 8)}}


def _target(bits, rel):
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    n = len(str(hi))
    # numbers and labels that are no multiple of 4 are left open, and addresses the processor would extend with ones
    label = {'mode': 'rel', 'lo': lo, 'hi': hi, 'mult': 4, 'base': lambda pc: pc, 'quick': (8,), 'deep': (1, 4, 8)}
    if not rel:
        label = {'mode': 'abs', 'lo': 0, 'hi': 2 * hi + 1, 'mult': 4, 'open': lambda v: v > hi, 'quick': (8,), 'deep': (1, 4, 8)}
    return {'kind': 'num', 'lo': lo, 'hi': hi if rel else 2 * hi + 1, 'hex': 2 * hi + 1, 'put': lambda v: v >> 2 << 2 & 2 * hi + 1, 'quick': (('', n), ('-', n), ('0x', n - 1)),
            'deep': tuple((k, d) for k in ('', '-', '0x') for d in (1, 3, n - 1, n, n + 1)), 'open': lambda v, kind: v % 4 != 0, 'label': label}


FIELDS = {
    'rD': _reg(G, 21), 'rA': _reg(G, 16), 'rB': _reg(G, 11), 'rZ': dict(_reg(G + [('0', 0)], 16)),
    'fD': _reg(F, 21), 'fA': _reg(F, 16), 'fB': _reg(F, 11), 'fC': _reg(F, 6),
    'si': _imm(-32768, 32767), 'ui': _imm(-32768, 65535),
    'n21': _num(5, 21), 'n16': _num(5, 16), 'n11': _num(5, 11), 'crD': _num(3, 23), 'crS': _num(3, 18), 'L': _num(1, 21), 'bh': _num(2, 11), 'th': _num(4, 21), 'strm': _num(2, 21),
    'fm': _num(8, 17), 'imm4': _num(4, 12), 'attn': _num(15, 11),
    'rel14': _target(16, True), 'abs14': _target(16, False), 'rel24': _target(26, True), 'abs24': _target(26, False),
}

OPS = {}


def op(text, word):
    assert text not in OPS, text
    OPS[text] = word & 0xffffffff


def x(name, xo, args, primary=31, rc=True, oe=False):
    """extended opcode forms, with the record bit and the overflow enable"""
    for o in (0, 1) if oe else (0,):
        for r in (0, 1) if rc else (0,):
            op(name + 'o' * o + '.' * r + (' ' + args if args else ''), primary << 26 | o << 10 | xo << 1 | r)


def _build():
    for n, xo in (('add', 266), ('addc', 10), ('adde', 138), ('subf', 40), ('subfc', 8), ('subfe', 136), ('divw', 491), ('divwu', 459), ('mullw', 235), ('doz', 264), ('mul', 107), ('div', 331),
                  ('divs', 363)):
        x(n, xo, 'rD,rA,rB', oe=True)
    # (the POWER name of mullw)
    for o, r in ((0, 0), (0, 1), (1, 0), (1, 1)):
        op('mull' + 'o' * o + '.' * r + ' rD,rA,rB', 31 << 26 | o << 10 | 235 << 1 | r)
    for n, xo in (('mulhw', 75), ('mulhwu', 11)):
        x(n, xo, 'rD,rA,rB')
    for n, xo in (('sub', 40), ('subc', 8)):
        x(n, xo, 'rD,rB,rA', oe=True)
    for n, xo in (('addme', 234), ('addze', 202), ('subfme', 232), ('subfze', 200), ('neg', 104), ('abs', 360), ('nabs', 488)):
        x(n, xo, 'rD,rA', oe=True)
    x('clcs', 531, 'rD,rA', rc=False)
    for n, xo in (('and', 28), ('andc', 60), ('eqv', 284), ('nand', 476), ('nor', 124), ('or', 444), ('orc', 412), ('xor', 316), ('slw', 24), ('srw', 536), ('sraw', 792), ('rrib', 537), ('maskg', 29),
                  ('maskir', 541), ('slq', 152), ('srq', 664), ('sllq', 216), ('srlq', 728), ('sle', 153), ('sre', 665), ('sleq', 217), ('sreq', 729), ('sraq', 920), ('srea', 921)):
        x(n, xo, 'rA,rD,rB')
    for n, xo in (('srawi', 824), ('sliq', 184), ('sriq', 696), ('slliq', 248), ('srliq', 760), ('sraiq', 952)):
        x(n, xo, 'rA,rD,n11')
    for n, xo in (('cntlzw', 26), ('extsb', 954), ('extsh', 922)):
        x(n, xo, 'rA,rD')
    for n, p, a in (('addi', 14, 'rD,rZ,si'), ('addis', 15, 'rD,rZ,ui'), ('li', 14, 'rD,si'), ('lis', 15, 'rD,ui'), ('addic', 12, 'rD,rA,si'), ('addic.', 13, 'rD,rA,si'), ('subfic', 8, 'rD,rA,si'),
                    ('dozi', 9, 'rD,rA,si'), ('mulli', 7, 'rD,rA,si'), ('andi.', 28, 'rA,rD,ui'), ('andis.', 29, 'rA,rD,ui'), ('ori', 24, 'rA,rD,ui'), ('oris', 25, 'rA,rD,ui'), ('xori', 26, 'rA,rD,ui'),
                    ('xoris', 27, 'rA,rD,ui'), ('twi', 3, 'n21,rA,si')):
        op(n + ' ' + a, p << 26)
    op('tw n21,rA,rB', 31 << 26 | 4 << 1)
    for n, to in (('lt', 16), ('le', 20), ('eq', 4), ('ge', 12), ('gt', 8), ('nl', 12), ('ne', 24), ('ng', 20), ('llt', 2), ('lle', 6), ('lge', 5), ('lgt', 1), ('lnl', 5), ('lng', 6)):
        op('tw%s rA,rB' % n, 31 << 26 | to << 21 | 4 << 1)
        op('tw%si rA,si' % n, 3 << 26 | to << 21)
    # comparisons
    for n, l, p, xo, i in (('cmp', None, 11, 0, 'si'), ('cmpl', None, 10, 32, 'ui'), ('cmpw', 0, 11, 0, 'si'), ('cmpd', 1, 11, 0, 'si'), ('cmplw', 0, 10, 32, 'ui'), ('cmpld', 1, 10, 32, 'ui')):
        w, wi = 31 << 26 | xo << 1 | (l or 0) << 21, p << 26 | (l or 0) << 21
        op('%s crD,rA,rB' % n, w)
        op('%si crD,rA,%s' % (n, i), wi)
        if l is None:
            op('%s crD,L,rA,rB' % n, w)
            op('%si crD,L,rA,%s' % (n, i), wi)
        else:
            op('%s rA,rB' % n, w)
            op('%si rA,%s' % (n, i), wi)
    # loads and stores with an index
    for n, xo in (('lbzx', 87), ('lhzx', 279), ('lhax', 343), ('lwzx', 23), ('lhbrx', 790), ('lwbrx', 534), ('lswx', 533), ('lwarx', 20), ('stbx', 215), ('sthx', 407), ('stwx', 151),
                  ('sthbrx', 918), ('stwbrx', 662), ('stswx', 661), ('eciwx', 310), ('ecowx', 438)):
        x(n, xo, 'rD,rZ,rB', rc=False)
    x('lscbx', 277, 'rD,rZ,rB')
    op('stwcx. rD,rZ,rB', 31 << 26 | 150 << 1 | 1)
    for n, xo in (('lbzux', 119), ('lhzux', 311), ('lhaux', 375), ('lwzux', 55), ('stbux', 247), ('sthux', 439), ('stwux', 183)):
        x(n, xo, 'rD,rA,rB', rc=False)
    for n, xo in (('lswi', 597), ('stswi', 725)):
        x(n, xo, 'rD,rZ,n11', rc=False)
    for n, xo in (('lfsx', 535), ('lfdx', 599), ('stfiwx', 983), ('stfsx', 663), ('stfdx', 727)):
        x(n, xo, 'fD,rZ,rB', rc=False)
    for n, xo in (('lfsux', 567), ('lfdux', 631), ('stfsux', 695), ('stfdux', 759)):
        x(n, xo, 'fD,rA,rB', rc=False)
    for n, xo in (('icbi', 982), ('dcbt', 278), ('dcbtst', 246), ('dcbz', 1014), ('dcbst', 54), ('dcbf', 86), ('dcba', 758), ('dcbi', 470)):
        x(n, xo, 'rZ,rB', rc=False)
    op('dcbzl rZ,rB', 31 << 26 | 1 << 21 | 1014 << 1)
    x('dcbt', 278, 'rZ,rB,th', rc=False)
    for n, xo in (('dst', 342), ('dstst', 374)):
        op('%s rA,rB,strm' % n, 31 << 26 | xo << 1)
        op('%st rA,rB,strm' % n, 31 << 26 | 1 << 25 | xo << 1)
    op('dss strm', 31 << 26 | 822 << 1)
    op('dssall', 31 << 26 | 1 << 25 | 822 << 1)
    # floating point
    for n, xo in (('fadd', 21), ('fsub', 20), ('fdiv', 18)):
        x(n, xo, 'fD,fA,fB', 63)
        x(n + 's', xo, 'fD,fA,fB', 59)
    x('fmul', 25, 'fD,fA,fC', 63)
    x('fmuls', 25, 'fD,fA,fC', 59)
    for n, xo in (('fmadd', 29), ('fmsub', 28), ('fnmadd', 31), ('fnmsub', 30)):
        x(n, xo, 'fD,fA,fC,fB', 63)
        x(n + 's', xo, 'fD,fA,fC,fB', 59)
    x('fsel', 23, 'fD,fA,fC,fB', 63)
    for n, xo in (('fmr', 72), ('fabs', 264), ('fneg', 40), ('fnabs', 136), ('frsp', 12), ('frsqrte', 26), ('fsqrt', 22), ('fctiw', 14), ('fctiwz', 15)):
        x(n, xo, 'fD,fB', 63)
    for n, xo in (('fres', 24), ('fsqrts', 22)):
        x(n, xo, 'fD,fB', 59)
    x('fcmpu', 0, 'crD,fA,fB', 63, rc=False)
    x('fcmpo', 32, 'crD,fA,fB', 63, rc=False)
    x('mffs', 583, 'fD', 63)
    x('mtfsf', 711, 'fm,fB', 63)
    x('mtfsfi', 134, 'crD,imm4', 63)
    x('mtfsb0', 70, 'n21', 63)
    x('mtfsb1', 38, 'n21', 63)
    x('mcrfs', 64, 'crD,crS', 63, rc=False)
    # condition register
    for n, xo in (('crand', 257), ('crandc', 129), ('creqv', 289), ('crnand', 225), ('crnor', 33), ('cror', 449), ('crorc', 417), ('crxor', 193)):
        x(n, xo, 'n21,n16,n11', 19, rc=False)
    x('mcrf', 0, 'crD,crS', 19, rc=False)
    x('mcrxr', 512, 'crD', rc=False)
    # special registers
    for n, spr in (('mq', 0), ('xer', 1), ('lr', 8), ('ctr', 9)):
        op('mf%s rD' % n, 31 << 26 | spr << 16 | 339 << 1)
        op('mt%s rD' % n, 31 << 26 | spr << 16 | 467 << 1)
    for n, spr in (('mfrtcl', 5), ('mfrtcu', 4)):
        op('%s rD' % n, 31 << 26 | spr << 16 | 339 << 1)
    for n, spr in (('mtrtcl', 21), ('mtrtcu', 20)):
        op('%s rD' % n, 31 << 26 | spr << 16 | 467 << 1)
    for n, spr in (('mttbl', 284), ('mttbu', 285)):
        op('%s rD' % n, 31 << 26 | (spr & 31) << 16 | (spr >> 5) << 11 | 467 << 1)
    for n, tbr in (('mftb', 268), ('mftbu', 269)):
        op('%s rD' % n, 31 << 26 | (tbr & 31) << 16 | (tbr >> 5) << 11 | 371 << 1)
    for n, xo in (('mfcr', 19), ('mtmsr', 146), ('mfmsr', 83)):
        x(n, xo, 'rD', rc=False)
    for n, xo in (('mtsrin', 242), ('mfsrin', 659)):
        x(n, xo, 'rD,rB', rc=False)
    for n, xo in (('tlbld', 978), ('tlbli', 1010)):
        x(n, xo, 'rB', rc=False)
    # branches
    for l, s in ((0, ''), (1, 'l')):
        op('b%s rel24' % s, 18 << 26 | l)
        op('b%sa abs24' % s, 18 << 26 | 2 | l)
        op('bc%s n21,n16,rel14' % s, 16 << 26 | l)
        op('bc%sa n21,n16,abs14' % s, 16 << 26 | 2 | l)
        for n, xo in (('bclr', 16), ('bcctr', 528)):
            op('%s%s n21,n16' % (n, s), 19 << 26 | xo << 1 | l)
            op('%s%s n21,n16,bh' % (n, s), 19 << 26 | xo << 1 | l)
        op('blr%s' % s, 19 << 26 | 20 << 21 | 16 << 1 | l)
        op('blr%s bh' % s, 19 << 26 | 20 << 21 | 16 << 1 | l)
        op('bctr%s' % s, 19 << 26 | 20 << 21 | 528 << 1 | l)
        op('bctr%s bh' % s, 19 << 26 | 20 << 21 | 528 << 1 | l)
        op('bctr%s n21,n16' % s, 19 << 26 | 528 << 1 | l)
        for n, bo, bi in (('dnz', 16, 0), ('dz', 18, 0), ('lt', 12, 0), ('le', 4, 1), ('eq', 12, 2), ('ge', 4, 0), ('gt', 12, 1), ('nl', 4, 0), ('ne', 4, 2), ('ng', 4, 1), ('so', 12, 3), ('ns', 4, 3),
                          ('un', 12, 3), ('nu', 4, 3)):
            c = bo << 21 | bi << 16
            op('b%s%s rel14' % (n, s), 16 << 26 | c | l)
            op('b%s%sa abs14' % (n, s), 16 << 26 | c | 2 | l)
            op('b%slr%s' % (n, s), 19 << 26 | c | 16 << 1 | l)
            if n in ('dnz', 'dz'):
                op('b%slr%s bh' % (n, s), 19 << 26 | c | 16 << 1 | l)
            else:
                op('b%sctr%s' % (n, s), 19 << 26 | c | 528 << 1 | l)
    # others
    op('nop', 24 << 26)
    op('sc', 17 << 26 | 2)
    op('sync', 31 << 26 | 598 << 1)
    op('sync strm', 31 << 26 | 598 << 1)
    op('lwsync', 31 << 26 | 1 << 21 | 598 << 1)
    op('ptesync', 31 << 26 | 2 << 21 | 598 << 1)
    op('trap', 31 << 26 | 31 << 21 | 4 << 1)
    op('isync', 19 << 26 | 150 << 1)
    op('eieio', 31 << 26 | 854 << 1)
    op('rfi', 19 << 26 | 50 << 1)
    op('tlbia', 31 << 26 | 370 << 1)
    op('tlbsync', 31 << 26 | 566 << 1)
    op('attn attn', 0x200)


_build()
OPTIONAL = {}
KNOWN = {}
MNEMONICS = list(dict.fromkeys(t.split(' ')[0] for t in OPS))

SHAPES = ['', 'r(r)', 'r,(r)', 'r,v(r)', '(r)', 'r,r,(r)']
for _l in (1, 2, 3, 4):
    for _k in range(2 ** _l):
        SHAPES.append(','.join('rv'[_k >> i & 1] for i in range(_l)))
SHAPES += ['r,r,r,r,r', 'z', 'z,r', 'r,z', 'r,r,z', 'r,z,r', 'z,r,r', 'r,z,v', 'z,r,v', 'v,z,v', 'r,r,r,z', 'r,r,z,r', 'r,z,r,r', 'z,r,r,r', 'v,z,r,v']


def _own(t):
    """the shape of an instruction"""
    args = t.partition(' ')[2]
    return ','.join('r' if FIELDS[a]['kind'] == 'reg' else 'v' for a in args.split(',')) if args else ''


def _near(shape):
    """a shape and those around it: one operand less or more, or of another kind"""
    ps = shape.split(',') if shape else []
    out = [ps, ps[:-1], ps + ['r'], ps + ['v']]
    for i in range(len(ps)):
        for k in 'rvz':
            out.append(ps[:i] + [k] + ps[i + 1:])
    return [','.join(o) for o in out]


def shapes(mn, deep):
    """the combinations of operands to try with a mnemonic"""
    if deep or mn in _FIRST:
        return SHAPES
    out = []
    for t in _FORMS[mn]:
        out += _near(_own(t))
    return list(dict.fromkeys(out))


_FORMS = {}
for _t in OPS:
    _FORMS.setdefault(_t.split(' ')[0], []).append(_t)
# the first mnemonic with each set of forms
_FIRST = []
_seen = set()
for _m in MNEMONICS:
    _k = tuple(sorted(t.partition(' ')[2] for t in _FORMS[_m]))
    if _k not in _seen:
        _seen.add(_k)
        _FIRST.append(_m)


def size(text):
    return 4


def vague(ctx, mn, shape, rs):
    # (the fields of the condition register, for which most instructions have forms the assembler does not support)
    return ctx.or_(*[r == 'cr1' for r in rs if len(r) == 3]) if any(len(r) == 3 for r in rs) else False


def pack(cpu, text, word):
    return bytes([word >> 24 & 255, word >> 16 & 255, word >> 8 & 255, word & 255])
