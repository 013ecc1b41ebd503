"""The arithmetic helpers the encoders are built from: packing, bit fields, range checks."""
from necroassembler import utils
from harness.lib import le, be

PACKERS = {
    'pack_byte': (1, False), 'pack_8s': (1, False),
    'pack_le16u': (2, False), 'pack_le16s': (2, False), 'pack_be16u': (2, True), 'pack_be16s': (2, True),
    'pack_le32u': (4, False), 'pack_le32s': (4, False), 'pack_be32u': (4, True), 'pack_be32s': (4, True),
    'pack_le64u': (8, False), 'pack_le64s': (8, False),
}


def packer(ctx, name, n, nones, wide):
    """every value is stored modulo 2**bits, in the byte order of the name; None is 0"""
    size, big = PACKERS[name]
    args = []
    want = b''
    for i in range(n):
        if i in nones:
            args.append(None)
            v = 0
        else:
            v = ctx.int('v%d' % i, -(1 << wide), (1 << wide) - 1)
            args.append(v)
        m = v & ((1 << (8 * size)) - 1)
        want = want + (be(m, size) if big else le(m, size))
    got = getattr(utils, name)(*args)
    ctx.require_bytes(got, want, 'a packed value is wrong')


def neg_fix(ctx, bits):
    v = ctx.int('v', 0, (1 << bits) - 1)
    got = utils.neg_fix(v, bits)
    ctx.observe('v', got)
    ctx.require(got == ctx.ite(v < (1 << (bits - 1)), v, v - (1 << bits)), 'two\'s complement is wrong')


def ranges(ctx, bits, wide):
    v = ctx.int('v', -(1 << wide), (1 << wide) - 1)
    ctx.require(bool(utils.in_bit_range(v, bits)) == bool(ctx.and_(v >= 0, v < (1 << bits))), 'in_bit_range is wrong')
    ctx.require(bool(utils.in_bit_range_decimal(v, bits, False)) == bool(ctx.and_(v >= -(1 << (bits - 1)), v < (1 << bits))),
                'in_bit_range_decimal (unsigned) is wrong')
    ctx.require(bool(utils.in_bit_range_decimal(v, bits, True)) == bool(ctx.and_(v >= -(1 << (bits - 1)), v < (1 << (bits - 1)))),
                'in_bit_range_decimal (signed) is wrong')


def bits(ctx, fields, width, how):
    """pack_bits: every field exactly in its own bits, values that do not fit are refused"""
    base = ctx.int('base', 0, (1 << width) - 1)
    for end, start in fields:
        if end >= start:
            ctx.assume((base >> start) & ((1 << (end - start + 1)) - 1) == 0)
    want = base
    good = True
    args = []
    for i, (end, start) in enumerate(fields):
        n = end - start + 1
        if n < 1:
            good = False
            args.append(((end, start), 0))
            continue
        v = ctx.int('v%d' % i, -(1 << n) - 3, (1 << (n + 1)) + 3)
        args.append(((end, start), v))
        good = ctx.and_(good, v >= -(1 << (n - 1)), v < (1 << n))
        want = want | ((v & ((1 << n) - 1)) << start)
    if how == 'bit':
        f = utils.pack_bit
        args = [(r[0], v) for r, v in args]
    else:
        f = getattr(utils, how)
    st, r = ctx.attempt(f, base, *args)
    if st == 'err':
        ctx.require(r == 'InvalidBitRange', 'the wrong error')
        ctx.require(ctx.not_(good), 'a value that fits is refused')
        return
    ctx.require(good, 'a value that does not fit is accepted')
    if how in ('pack_bits', 'bit'):
        ctx.observe('v', r)
        ctx.require(r == want, 'a bit field is wrong')
    else:
        size = {'pack_bits_le32u': 4, 'pack_bits_le16u': 2, 'pack_bits_be16u': 2}[how]
        want = want & ((1 << (8 * size)) - 1)
        ctx.require_bytes(r, be(want, size) if how == 'pack_bits_be16u' else le(want, size), 'a bit field is wrong')


# letters, digits and marks outside of ASCII
BEYOND = '\xa0\xaa\xb2\xb5\xbc\xdf\xe9\u0100\u01c5\u0391\u0431\u0661\u1d7d\u203f\u2160\uff10\uff21\uff3f'


def valid_name(ctx, n):
    s = ctx.chars('s', n, ''.join([chr(c) for c in range(32, 127)]) + BEYOND)
    good = True
    for c in s:
        o = ord(c)
        good = ctx.and_(good, ctx.or_(ctx.and_(o >= 48, o <= 57), ctx.and_(o >= 65, o <= 90), ctx.and_(o >= 97, o <= 122), o == 95, o == 46))
    r = utils.is_valid_name(s)
    ctx.observe('r', bool(r))
    ctx.require(good if r else ctx.not_(good), 'is_valid_name is wrong')


def case(fn, **p):
    return {'fn': 'harness.utils:' + fn, 'params': p}


def cases(tier):
    deep = tier != 'quick'
    out = []
    for p, (size, big) in sorted(PACKERS.items()):
        for n, nones in ((1, []), (2, []), (3, [1]), (1, [0])):
            out.append(case('packer', name=p, n=n, nones=nones, wide=8 * size + 2))
            if deep:
                out.append(case('packer', name=p, n=n + 1, nones=nones, wide=8 * size + 8))
    for b in (1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 16, 20, 24, 26, 31, 32, 33, 64):
        out.append(case('neg_fix', bits=b))
        out.append(case('ranges', bits=b, wide=b + 2))
    for fields, w in (([[7, 0]], 8), ([[0, 0]], 4), ([[15, 8]], 16), ([[31, 26], [25, 0]], 32), ([[5, 3], [2, 0]], 16), ([[10, 6]], 16),
                      ([[25, 21], [20, 16], [15, 0]], 32), ([[31, 31]], 32), ([[15, 0]], 16), ([[2, 4]], 8), ([[3, 1], [0, 3]], 8)):
        for how in ('pack_bits', 'pack_bits_le32u') + (('pack_bits_le16u', 'pack_bits_be16u') if w <= 16 else ()):
            out.append(case('bits', fields=fields, width=w, how=how))
    for fields in ([[0, 0]], [[3, 3], [1, 1]], [[7, 7], [5, 5], [0, 0]]):
        out.append(case('bits', fields=fields, width=8, how='bit'))
    if deep:
        for end in range(0, 32):
            for start in range(0, end + 1):
                out.append(case('bits', fields=[[end, start]], width=32, how='pack_bits'))
    for n in (1, 2, 3) + ((4, 5) if deep else ()):
        out.append(case('valid_name', n=n))
    return out
