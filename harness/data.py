"""Data directives: numbers, strings and numbers written as text."""
from necroassembler import Assembler
from harness.lib import number, hexlit, declit, field, run


class Little(Assembler):
    hex_prefixes = ('0x', '$')
    bin_prefixes = ('0b',)


class Big(Little):
    big_endian = True


SIZES = {'.db': 1, '.byte': 1, '.dw': 2, '.word': 2, '.dd': 4, '.dl': 4, '.dword': 4}
PRINT = ''.join([chr(c) for c in range(32, 127) if chr(c) not in '"\\'])


def operand(ctx, name, kind, n):
    """-> text, value, least value of the syntax"""
    if kind == 'x':
        t, v = hexlit(ctx, name, n)
    elif kind == '$':
        t, v = hexlit(ctx, name, n, '$')
    elif kind == 'b':
        t, v = number(ctx, name, n, 2)
        t = '0b' + t
    elif kind == '-':
        t, v = declit(ctx, name, n, True)
    else:
        t, v = declit(ctx, name, n)
    return t, v


def numbers(ctx, d, kinds, ns, sep, big):
    """every operand occupies its own field, in order, in the byte order of the processor"""
    asm = Big() if big else Little()
    size = SIZES[d]
    top = 1 << (8 * size)
    ok = True
    want = b''
    text = ''
    for i, k in enumerate(kinds):
        t, v = operand(ctx, 'v%d' % i, k, ns[i])
        text = text + (sep if i else ' ') + t
        ok = ctx.and_(ok, v < top, v >= -(top >> 1))
        want = want + field(ctx.ite(v < 0, v + top, v), size, big)
    st, r = run(ctx, asm, '.org 5\n' + d + text + '\nend:\n.db 0xEE')
    if st == 'ok':
        ctx.require(ok, 'a value that does not fit is accepted')
        ctx.require_bytes(asm.assembled_bytes, want + b'\xEE', 'data is emitted wrongly')
        ctx.require(asm.get_label_absolute_address_by_name('end') == 5 + size * len(kinds), 'the address after the data is wrong')
    else:
        ctx.require(ctx.not_(ok), 'data that fits is refused')


def strings(ctx, quote, n, pre, post):
    """the characters of a string are emitted as they are"""
    asm = Little()
    t = ctx.chars('s', n, PRINT if quote == '"' else PRINT.replace("'", '') + '"')
    a, av = hexlit(ctx, 'a', 2)
    b, bv = hexlit(ctx, 'b', 2)
    src = '.db '
    want = b''
    if pre:
        src = src + a + ','
        want = want + bytes([av])
    src = src + quote + t + quote
    want = want + t.encode('ascii')
    if post:
        src = src + ' ' + b
        want = want + bytes([bv])
    st, r = run(ctx, asm, src + '\n.byte 0xEE')
    ctx.require(st == 'ok', 'a string is refused', detail=repr(r))
    ctx.require_bytes(asm.assembled_bytes, want + b'\xEE', 'a string is emitted wrongly')


def escapes(ctx, quote, n, pos):
    """a backslash takes the next character literally, the quote and itself included"""
    asm = Little()
    t = ctx.chars('s', n, PRINT if quote == '"' else PRINT.replace("'", '') + '"')
    e = ctx.chars('e', 1, PRINT + '"\\')
    st, r = run(ctx, asm, '.db ' + quote + t[:pos] + '\\' + e + t[pos:] + quote + '\n.db 0xEE')
    ctx.require(st == 'ok', 'an escaped character is refused', detail=repr(r))
    ctx.require_bytes(asm.assembled_bytes, (t[:pos] + e + t[pos:]).encode('ascii') + b'\xEE',
                      'an escaped character is emitted wrongly')


def as_text(ctx, d, n, z, label):
    """numbers written as decimal text"""
    asm = Little()
    bits = 8 if d == 'db' else 16
    width = 3 if d == 'db' else 5
    name = '.' + d + '_to_ascii' + ('z' if z else '')
    end = b'\x00\xEE' if z else b'\xEE'
    if label:
        o, ov = hexlit(ctx, 'o', n)
        st, r = run(ctx, asm, '.db 1\n' + name + ' lab\n.db 0xEE\n.org ' + o + '\nlab:\n')
        v = ov
        if st == 'ok':
            ctx.require(v < (1 << bits), 'a label that does not fit is accepted')
            got = asm.assembled_bytes
            ctx.observe('bytes', got)
            ctx.require(len(got) == 1 + width + len(end), 'the text has the wrong length')
            ctx.require(ctx.bytes_eq(got[1 + width:], end), 'the bytes after the text are changed')
            back = 0
            for i in range(width):
                c = got[1 + i]
                ctx.require(ctx.and_(c >= 48, c <= 57), 'the text is not decimal')
                back = back * 10 + (c - 48)
            ctx.require(back == v, 'the text is another number')
        else:
            ctx.require(v >= (1 << bits), 'a label that fits is refused', detail=repr(r))
        return
    t, v = declit(ctx, 'v', n)
    st, r = run(ctx, asm, '.db 1\n' + name + ' ' + t + '\n.db 0xEE\n')
    if st == 'ok':
        ctx.require(v < (1 << bits), 'a value that does not fit is accepted')
        got = asm.assembled_bytes
        ctx.observe('bytes', got)
        k = len(got) - 1 - len(end)
        ctx.require(k >= 1, 'no text')
        ctx.require(ctx.bytes_eq(got[1 + k:], end), 'the bytes after the text are changed')
        back = 0
        for i in range(k):
            c = got[1 + i]
            ctx.require(ctx.and_(c >= 48, c <= 57), 'the text is not decimal')
            back = back * 10 + (c - 48)
        ctx.require(back == v, 'the text is another number')
    else:
        ctx.require(v >= (1 << bits), 'a value that fits is refused', detail=repr(r))


def quoted_number(ctx, d, n, q, z):
    """the decimal digits of a quoted number, without leading zeroes"""
    asm = Little()
    t, v = number(ctx, 'v', n, 10)
    st, r = run(ctx, asm, '.db 1\n.' + d + '_to_ascii' + ('z' if z else '') + ' ' + q + t + q + '\n.db 0xEE\n')
    ctx.require(st == 'ok', 'a quoted number is refused', detail=repr(r))
    # t without its leading zeroes
    k = 0
    while k < n - 1 and t[k] == '0':
        k += 1
    ctx.require_bytes(asm.assembled_bytes, b'\x01' + t[k:].encode('ascii') + (b'\x00' if z else b'') + b'\xEE', 'the text is another number')


def case(fn, **p):
    return {'fn': 'harness.data:' + fn, 'params': p}


def cases(tier):
    out = []
    deep = tier != 'quick'
    for d in ('db', 'dw'):
        for n in (2, 3) + ((4,) if d == 'dw' else ()) + ((5,) if d == 'dw' and deep else ()):
            for z in (False, True):
                out.append(case('quoted_number', d=d, n=n, q='"', z=z))
    for d in SIZES:
        hx = 2 * SIZES[d]
        dc = {1: 3, 2: 5, 4: 10}[SIZES[d]]
        for big in (False, True):
            for kinds, ns in (('x', (hx,)), ('x', (hx + 1,)), ('d', (dc,)), ('-', (dc,)), ('$', (hx,)), ('b', (8,)),
                              ('xx', (hx, hx)), ('dx', (2, hx)), ('x-', (2, 3)), ('xdx', (hx, 2, hx + 1)),
                              ('xxx', (2, 2, 2))):
                for sep in ((',',) if not deep else (',', ' ', ', ', '\t', ' ,')):
                    out.append(case('numbers', d=d, kinds=kinds, ns=list(ns), sep=sep, big=big))
            out.append(case('numbers', d=d, kinds='xdb', ns=[2, 2, 2], sep=' ', big=big))
            if deep:
                for k in range(2, 7):
                    out.append(case('numbers', d=d, kinds='x' * k, ns=[hx] * k, sep=',', big=big))
                    out.append(case('numbers', d=d, kinds='-d' * k, ns=[2, 2] * k, sep=' ', big=big))
    for q in '"\'':
        for n in range(1, 5 if not deep else 12):
            for pre in (False, True):
                for post in (False, True):
                    out.append(case('strings', quote=q, n=n, pre=pre, post=post))
        for n in range(0, 3 if not deep else 6):
            for pos in range(n + 1):
                out.append(case('escapes', quote=q, n=n, pos=pos))
    for d in ('db', 'dw'):
        for z in (False, True):
            for n in range(1, 4 if d == 'db' else 6):
                out.append(case('as_text', d=d, n=n, z=z, label=False))
            for n in ((2, 3) if d == 'db' else (4, 5)):
                out.append(case('as_text', d=d, n=n, z=z, label=True))
    return out
