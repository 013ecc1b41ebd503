"""Shared vocabulary of the harnesses (runs both symbolically and concretely)."""

HEX = '0123456789abcdefABCDEF'
LHEX = '0123456789abcdef'
DEC = '0123456789'
OCT = '01234567'
BIN = '01'
ALPHA = {16: HEX, 10: DEC, 8: OCT, 2: BIN}


def digit(ctx, ch):
    o = ord(ch)
    return ctx.ite(o < 58, o - 48, ctx.ite(o < 71, o - 55, o - 87))


def horner(ctx, text, radix):
    v = 0
    for ch in text:
        v = v * radix + digit(ctx, ch)
    return v


def digits(ctx, name, n, radix):
    """n symbolic digits -> (text, value)"""
    t = ctx.chars(name, n, ALPHA[radix])
    return t, horner(ctx, t, radix)


def number(ctx, name, n, radix=10):
    """an n-digit number -> (text, value)"""
    t, ds = ctx.digits(name, n, LHEX[:radix])
    v = 0
    for d in ds:
        v = v * radix + d
    return t, v


def hexlit(ctx, name, n, prefix='0x'):
    t, v = number(ctx, name, n, 16)
    return prefix + t, v


def declit(ctx, name, n, negative=False):
    t, v = number(ctx, name, n, 10)
    if negative:
        return '-' + t, -v
    return t, v


def le(v, n):
    return bytes([(v >> (8 * i)) & 0xff for i in range(n)])


def be(v, n):
    return bytes([(v >> (8 * (n - 1 - i))) & 0xff for i in range(n)])


def field(v, n, big):
    return be(v, n) if big else le(v, n)


def run(ctx, asm, source, link=True):
    def go():
        asm.assemble(source)
        if link:
            asm.link()
    return ctx.attempt(go)


def merge(dst, extra):
    d = dict(dst)
    d.update(extra)
    return d
