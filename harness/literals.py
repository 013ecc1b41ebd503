"""Integer literals: radix, sign and field width (property int-literals)."""
from necroassembler import Assembler
from necroassembler.cpu.mos6502 import AssemblerMOS6502
from necroassembler.cpu.z80 import AssemblerZ80
from necroassembler.cpu.lr35902 import AssemblerLR35902
from necroassembler.cpu.intel8086 import AssemblerIntel8086
from necroassembler.cpu.mips32 import AssemblerMIPS32
from necroassembler.cpu.thumb import AssemblerThumb
from necroassembler.cpu.mc68000 import AssemblerMC68000
from necroassembler.cpu.powerpc import AssemblerPowerPC
from harness.lib import digits, horner, HEX, DEC


class Core(Assembler):
    hex_prefixes = ('0x', '$')
    bin_prefixes = ('0b', '%')
    oct_prefixes = ('0o', '@')
    dec_prefixes = ('0d',)
    hex_suffixes = ('h',)
    bin_suffixes = ('y',)
    oct_suffixes = ('q',)
    dec_suffixes = ('t',)


CPUS = {'core': Core, '6502': AssemblerMOS6502, 'z80': AssemblerZ80, 'lr35902': AssemblerLR35902,
        '8086': AssemblerIntel8086, 'mips32': AssemblerMIPS32, 'thumb': AssemblerThumb, '68000': AssemblerMC68000,
        'powerpc': AssemblerPowerPC}

# the literal syntax each assembler documents (prefix, suffix, radix)
SYNTAX = {
    'core': [('0x', '', 16), ('$', '', 16), ('0b', '', 2), ('%', '', 2), ('0o', '', 8), ('@', '', 8), ('0d', '', 10),
             ('', 'h', 16), ('', 'y', 2), ('', 'q', 8), ('', 't', 10)],
    '6502': [('$', '', 16), ('%', '', 2), ('@', '', 8)],
    'z80': [('$', '', 16), ('%', '', 2)],
    'lr35902': [('$', '', 16), ('%', '', 2), ('@', '', 8)],
    '8086': [('0x', '', 16), ('0h', '', 16), ('$0', '', 16), ('', 'h', 16), ('0d', '', 10), ('', 'd', 10),
             ('0b', '', 2), ('0y', '', 2), ('', 'b', 2), ('', 'y', 2), ('0o', '', 8), ('0q', '', 8), ('', 'o', 8),
             ('', 'q', 8)],
    'mips32': [('0x', '', 16), ('0b', '', 2)],
    'thumb': [('0x', '', 16), ('0b', '', 2), ('0y', '', 2)],
    '68000': [('$', '', 16), ('%', '', 2)],
    'powerpc': [('0x', '', 16)],
}


def check(ctx, asm, text, v, decimal, bits, signed):
    st, r = ctx.attempt(asm.parse_integer, text, bits, signed)
    top = 1 << bits
    half = top >> 1
    if decimal and signed:
        ok = ctx.and_(v >= -half, v < half)
        want = v
    else:
        ok = ctx.and_(v >= -half if decimal else v >= 0, v < top)
        want = ctx.ite(v < 0, v + top, v)
    if st == 'ok':
        ctx.require(r is not None, 'a well-formed literal is treated as a label')
        ctx.require(ok, 'a literal outside its %d-bit field is accepted' % bits, detail=repr((text, r)))
        ctx.require(r == want, 'a literal is given the wrong value', detail=repr((text, r)))
    else:
        ctx.require(ctx.not_(ok), 'a literal that fits its %d-bit field is refused' % bits, detail=repr((text, r)))


def radix(ctx, cpu, prefix, suffix, base, n, bits, signed):
    asm = CPUS[cpu]()
    t, v = digits(ctx, 'd', n, base)
    if suffix:
        if base == 16:
            # a suffixed hexadecimal literal starts with a decimal digit
            ctx.assume(ord(t[0]) < 58)
    text = prefix + t + suffix
    # text that another radix of the same syntax claims by its own prefix or suffix is outside this case
    if not prefix:
        for p, s, b in SYNTAX[cpu]:
            if p and not s:
                ctx.assume(ctx.not_(text.startswith(p)))
            if s and s != suffix:
                ctx.assume(ctx.not_(text.endswith(s)))
    elif prefix == '0d' or prefix == '0b' or prefix == '0o' or prefix == '0q' or prefix == '0y':
        pass
    check(ctx, asm, text, v, base == 10, bits, signed)


def decimal(ctx, cpu, n, negative, bits, signed):
    asm = CPUS[cpu]()
    t, v = digits(ctx, 'd', n, 10)
    text = t
    if negative:
        text = '-' + t
        v = -v
    check(ctx, asm, text, v, True, bits, signed)


def char(ctx, cpu, bits):
    """'c' is the code of the character c, whatever the character"""
    asm = CPUS[cpu]()
    c = ctx.chars('c', 1, ''.join([chr(i) for i in range(32, 127)]) + '\xa1\xb2\xe9\xff\u0100\u0141\u2028\ufffd\U0001f600')
    st, r = ctx.attempt(asm.parse_integer, "'" + c + "'", bits, False)
    v = ord(c)
    ok = v < (1 << bits)
    if st == 'ok':
        ctx.require(r is not None, 'a character literal is treated as a label')
        ctx.require(ok, 'a character literal that does not fit is accepted')
        ctx.require(r == v, 'a character literal has the wrong value')
    else:
        ctx.require(ctx.not_(ok), 'a character literal is refused')


def not_a_number(ctx, cpu, n):
    """names are never numbers: a token that starts with a letter and has no radix mark"""
    asm = CPUS[cpu]()
    c = ctx.chars('a', 1, 'ghijklmnopqrstuvwxyzGHIJKLMNOPQRSTUVWXYZ_')
    t = ctx.chars('t', n, 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
    st, r = ctx.attempt(asm.parse_integer, c + t, 32, False)
    ctx.require(st == 'ok', 'a name raises when tried as a number')
    ctx.require(r is None, 'a name is parsed as a number')


def cases(tier):
    out = []
    deep = tier != 'quick'

    def add(fn, **p):
        if p.get('n', 0) > 10 and p.get('base', 10) == 10:
            return      # longer decimal literals do not finish
        out.append({'fn': 'harness.literals:' + fn, 'params': p})
    widths = [1, 5, 8, 11, 16, 32] + ([3, 4, 12, 20, 24, 26, 64] if deep else [])
    for cpu in CPUS:
        ws = widths if cpu == 'core' or deep else [8, 16]
        for p, s, b in SYNTAX[cpu]:
            for w in ws:
                need = {16: (w + 3) // 4, 10: len(str(1 << w)), 8: (w + 2) // 3, 2: w}[b]
                lens = sorted({max(1, need - 1), need, need + 1})
                if deep:
                    lens = range(1, need + 3)
                for n in lens:
                    for signed in (False, True):
                        add('radix', cpu=cpu, prefix=p, suffix=s, base=b, n=n, bits=w, signed=signed)
        for w in ws:
            need = len(str(1 << w))
            lens = range(1, need + 3) if deep else sorted({1, max(1, need - 1), need, need + 1})
            for n in lens:
                for neg in (False, True):
                    for signed in (False, True):
                        add('decimal', cpu=cpu, n=n, negative=neg, bits=w, signed=signed)
        for bits in (5, 8, 16):
            add('char', cpu=cpu, bits=bits)
        for n in ((0, 1, 2, 3) if not deep else range(0, 7)):
            add('not_a_number', cpu=cpu, n=n)
    return out
