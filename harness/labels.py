"""Label references: absolute fields, relative fields, unknown names, label expressions."""
from necroassembler import Assembler, opcode
from necroassembler.utils import pack_byte
from harness.lib import hexlit, declit, number, le, be, field, run


class Little(Assembler):
    hex_prefixes = ('0x',)


class Big(Assembler):
    hex_prefixes = ('0x',)
    big_endian = True


def make(big):
    return Big() if big else Little()


# where the label is defined relative to its use
PLACES = ('before', 'after', 'other_org')


def program(place, org, org2, pad, use):
    """(source, address expression) pieces: label `lab` and one statement `use`"""
    if place == 'before':
        return '.org ' + org + '\n' + pad + 'lab:\n.db 1\n' + use + '\n.db 2\n'
    if place == 'after':
        return '.org ' + org + '\n' + pad + use + '\n.db 2\nlab:\n.db 1\n'
    return '.org ' + org2 + '\nlab:\n.org ' + org + '\n' + pad + use + '\n'


def absolute(ctx, size, big, place, n):
    """.db/.dw/.dd label: the address in the field's byte order, or an error when it does not fit"""
    asm = make(big)
    o, ov = hexlit(ctx, 'org', n)
    o2, o2v = hexlit(ctx, 'org2', n)
    fill = ctx.int('fill', 0, 255)
    asm.fill_value = fill
    d = {1: '.db', 2: '.dw', 4: '.dd'}[size]
    st, r = run(ctx, asm, program(place, o, o2, '.db 9\n.db 8\n', d + ' lab'))
    addr = {'before': ov + 2, 'after': ov + 2 + size + 1, 'other_org': o2v}[place]
    fits = addr < (1 << (8 * size))
    if st == 'ok':
        ctx.require(fits, 'an address that does not fit its field is truncated')
        f = field(addr, size, big)
        want = b'\x09\x08' + (b'\x01' + f + b'\x02' if place == 'before' else
                              f + (b'\x02\x01' if place == 'after' else b''))
        ctx.require_bytes(asm.assembled_bytes, want, 'a label resolves to the wrong bytes')
    else:
        ctx.require(ctx.not_(fits), 'a label that fits its field is refused')


class Custom(Assembler):
    """a processor description as the framework invites users to write it"""
    hex_prefixes = ('0x',)
    size = 2
    bits_size = 16
    bits = None
    offset = 1
    alignment = 1
    relative = None
    shift = 0

    @opcode('OP')
    def op(self, instr):
        rel = None
        if self.relative is not None:
            rel = self.pc + self.relative
        f = None
        if self.shift:
            f = lambda x: x >> self.shift
        value = self.parse_integer_or_label(label=instr.tokens[1], size=self.size, bits_size=self.bits_size,
                                            relative=rel, offset=self.offset, alignment=self.alignment,
                                            bits=self.bits, filter=f)
        assert value == 0
        return bytes([self.base]) + bytes([0] * self.size)

    base = 0xEA


def custom(ctx, big, size, bits_size, alignment, shift, bits, relative, place, n):
    """add_label_translation honours size, offset, range, alignment, filter, bit field and byte order"""
    asm = Custom()
    asm.big_endian = big
    asm.size = size
    asm.bits_size = bits_size
    asm.alignment = alignment
    asm.shift = shift
    asm.bits = tuple(bits) if bits else None
    asm.relative = relative
    o, ov = hexlit(ctx, 'org', n)
    o2, o2v = hexlit(ctx, 'org2', n)
    st, r = run(ctx, asm, program(place, o, o2, '.db 9\n', 'OP lab'))
    here = ov + 1 + (1 if place == 'before' else 0)
    addr = {'before': ov + 1, 'after': ov + 1 + 1 + size + 1, 'other_org': o2v}[place]
    value = addr
    lo, hi = 0, (1 << bits_size) - 1
    if relative is not None:
        value = addr - (here + relative)
        lo, hi = -(1 << (bits_size - 1)), (1 << (bits_size - 1)) - 1
    ok = ctx.and_(value >= lo, value <= hi, addr % alignment == 0)
    if bits:
        # the (shifted) value must also fit its bit field
        end, start = bits
        w = end - start + 1
        sv = value >> shift
        if relative is not None:
            ok = ctx.and_(ok, sv >= -(1 << (w - 1)), sv < (1 << w))
        else:
            ok = ctx.and_(ok, sv < (1 << w))
    if st == 'ok':
        ctx.require(ok, 'an unencodable reference is accepted')
        sv = value >> shift
        if bits:
            end, start = bits
            sv = (sv & ((1 << (end - start + 1)) - 1)) << start
        f = field(sv & ((1 << (8 * size)) - 1), size, big)
        op = bytes([0xEA]) + f
        want = b'\x09' + (b'\x01' + op + b'\x02' if place == 'before' else
                          op + (b'\x02\x01' if place == 'after' else b''))
        ctx.require_bytes(asm.assembled_bytes, want, 'a reference is encoded wrongly')
    else:
        ctx.require(ctx.not_(ok), 'an encodable reference is refused', detail=repr(r))


class Packed(Assembler):
    """an instruction of one word with three operands, each of which may be a label"""
    hex_prefixes = ('0x',)

    @opcode('OP')
    def op(self, instr):
        a, b, c = instr.tokens[1:]
        a = self.parse_integer_or_label(label=a, size=4, bits_size=6, bits=(27, 22))
        b = self.parse_integer_or_label(label=b, size=4, bits_size=10, bits=(21, 12))
        c = self.parse_integer_or_label(label=c, size=4, bits_size=12, bits=(11, 0), relative=self.pc)
        word = 0xA0000000 | a << 22 | b << 12 | c & 0xfff
        return word.to_bytes(4, 'big' if self.big_endian else 'little')


def shared(ctx, big, uses, n, times):
    """references that share the bytes of one instruction all hold their addresses"""
    asm = Packed()
    asm.big_endian = big
    src = ''
    addr = {}
    for k in 'xy':
        t, v = hexlit(ctx, k, n)
        src = src + '.org ' + t + '\n' + k + ': .db 1\n'
        addr[k] = v
    o, ov = hexlit(ctx, 'org', 2)
    names = []
    vals = []
    for i, u in enumerate(uses):
        if u == 'n':
            t, v = hexlit(ctx, 'n%d' % i, 1)
        else:
            t, v = {'u': 'nowhere'}.get(u, u), addr.get(u, 0)
        names.append(t)
        vals.append(v)
    line = 'OP ' + names[0] + ' ' + names[1] + ' ' + names[2] + '\n'
    src = src + '.org ' + o + '\n'
    src = src + ('.repeat %d\n' % times + line + '.endrepeat\n' if times > 1 else line) + '.db 2'
    st, r = run(ctx, asm, src)
    if 'u' in uses:
        ctx.require(st == 'err', 'an undefined label is accepted')
        return
    ok = ctx.and_(vals[0] < 64, vals[1] < 1024)
    want = b'\x01\x01'
    for i in range(times):
        d = vals[2] - (0 if uses[2] == 'n' else ov + 4 * i)
        ok = ctx.and_(ok, d >= -2048, d < 2048)
        word = 0xA0000000 | (vals[0] & 63) << 22 | (vals[1] & 1023) << 12 | d & 0xfff
        want = want + field(word, 4, big)
    if st == 'ok':
        ctx.require(ok, 'an unencodable reference is accepted')
        ctx.require_bytes(asm.assembled_bytes, want + b'\x02', 'a reference is encoded wrongly')
    else:
        ctx.require(ctx.not_(ok), 'an encodable reference is refused', detail=repr(r))


def repeated(ctx, big, size, relative, back, times, n):
    """each copy of a repeated block holds its own distance, wherever the reference point is"""
    asm = Custom()
    asm.big_endian = big
    asm.size = size
    asm.bits_size = 8 * size
    asm.relative = relative
    o, ov = hexlit(ctx, 'org', n)
    body = '.repeat %d\nOP lab\n.endrepeat\n' % times
    st, r = run(ctx, asm, '.org ' + o + ('\nlab:\n' + body if back else '\n' + body + 'lab:\n') + '.db 7')
    ctx.require(st == 'ok', 'a repeated reference is refused', detail=repr(r))
    want = b''
    for i in range(times):
        dist = (0 if back else times * (1 + size)) - (i * (1 + size) + relative)
        want = want + b'\xea' + (dist & ((1 << (8 * size)) - 1)).to_bytes(size, 'big' if big else 'little')
    ctx.require_bytes(asm.assembled_bytes, want + b'\x07', 'a repeated reference is encoded wrongly')


def unknown(ctx, size, big, n, m, form):
    """a reference to a name that is never defined is an error, never a silent zero"""
    asm = make(big)
    d = {1: '.db', 2: '.dw', 4: '.dd'}[size]
    name = ctx.chars('name', n, 'abyzABYZ_g')
    other = ctx.chars('other', m, 'abyzABYZ_g')
    if form[:3] == 'num':
        ref = '7' + form[3:] + name
        form = 'arg'
    elif form[:3] == 'lab':
        ref = other + form[3:] + name
        form = 'arg'
    elif form == 'second':
        ref = other + '+1-' + name
        form = 'arg'
    elif form == 'prefixed':
        ref = '<' + other + '+' + name
        form = 'arg'
    else:
        ref = {'plain': name, 'plus': name + '+1', 'low': '<' + name, 'high': '>' + name, 'low2': '><' + name, 'minus': name + '-' + other,
               'times': name + '*0', 'and': name + '&0'}[form]
    asm.case_sensitive = False
    st, r = run(ctx, asm, '.db 1\n' + other + ':\n.db 2\n' + d + ' ' + ref + '\n')
    known = name == other
    if st == 'ok':
        ctx.require(known, 'an undefined label is silently resolved')
    elif known and form != 'arg':
        ctx.fail('a defined label is refused')
    else:
        ctx.require(ctx.or_(r == 'UnknownLabel', known), 'an undefined label is reported as something else')


def define_errors(ctx, kind, n):
    """duplicate labels, labels that are numbers, and labels with invalid characters are refused"""
    asm = make(False)
    if kind[:3] == 'dup':
        a = ctx.chars('a', n, 'abAB_.1')
        b = ctx.chars('b', n, 'abAB_.1')
        ctx.assume(ctx.and_(a[0] != '1', b[0] != '1', a[0] != '.', b[0] != '.'))
        t, v = hexlit(ctx, 'v', 2)
        between, addr = {'dup': ('.db 1\n', 1), 'dup-org': ('.org ' + t + '\n', v), 'dup-bounded': ('.db 1\n.org ' + t + ' 0x200\n', v),
                         'dup-section': ('.section two RW\n.db 1\n', 1), 'dup-ram': ('.ram 2\n.org ' + t + '\n.db 1\n', v + 1),
                         'dup-same': ('', 0), 'dup-many': ('.org ' + t + '\nother: .db 1\n.org 0x10\n', 16),
                         'dup-macro': ('.macro mac\n.db 1\n.endmacro\nmac\n', 1), 'dup-repeat': ('.repeat 2\n.db 1\n.endrepeat\n', 2)}[kind]
        st, r = run(ctx, asm, a + ':\n' + between + b + ':\n.db 2\n')
        if st == 'ok':
            ctx.require(a != b, 'a label is defined twice')
            ctx.require(asm.get_label_absolute_address_by_name(a) == 0, 'label address')
            ctx.require(asm.get_label_absolute_address_by_name(b) == addr, 'label address')
        else:
            ctx.require(a == b, 'a fresh label is refused')
            ctx.require(r == 'LabelAlreadyDefined', 'wrong error for a duplicate label')
    elif kind == 'chars':
        a = ctx.chars('a', n, 'aZ_.9$%&*+-/<=>!?@#^|~\\`')
        st, r = run(ctx, asm, '.db 1\n' + a + ':\n.db 2\n')
        good = True
        number = True
        for ch in a:
            good = ctx.and_(good, ctx.or_(ch == 'a', ch == 'Z', ch == '_', ch == '.', ch == '9'))
            number = ctx.and_(number, ch == '9')
        # Python accepts underscores between the digits of a number
        if st == 'ok':
            ctx.require(good, 'a label with invalid characters is accepted')
            ctx.require(ctx.not_(number), 'a number is accepted as a label')
        else:
            ctx.require(r == 'InvalidLabel' or r == 'NegativeSignNotAllowed', 'wrong error for an invalid label')
            allnum = True
            for ch in a:
                allnum = ctx.and_(allnum, ctx.or_(ch == '9', ch == '_'))
            ctx.require(ctx.or_(ctx.not_(good), allnum), 'a valid label is refused')


def apply(ctx, op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return a // b
    if op == '&':
        return a & b
    return a | b


def math_numbers(ctx, ops, n, radix, size):
    """integer expressions: strictly left to right, value reduced into the field or refused"""
    asm = make(False)
    pre = '0x' if radix == 16 else ''
    text = ''
    v = None
    zero = False
    for i in range(len(ops) + 1):
        t, x = number(ctx, 'n%d' % i, n, radix)
        if v is None:
            v = x
            text = pre + t
        else:
            if ops[i - 1] == '/':
                ctx.assume(x != 0)
            v = apply(ctx, ops[i - 1], v, x)
            text = text + ops[i - 1] + pre + t
    d = {1: '.db', 2: '.dw', 4: '.dd'}[size]
    st, r = run(ctx, asm, d + ' ' + text)
    top = 1 << (8 * size)
    ok = ctx.and_(v < top, v >= (0 if radix == 16 else -(top >> 1)))
    if st == 'ok':
        ctx.require(ok, 'an expression whose value does not fit is accepted')
        ctx.require_bytes(asm.assembled_bytes, le(ctx.ite(v < 0, v + top, v), size), 'an expression has the wrong value')
    else:
        ctx.require(ctx.not_(ok), 'an expression whose value fits is refused')


def math_wide(ctx, form, ops, heads, n, radix, size):
    """the terms of an expression are unbounded (up to 64 bits when written): only the result has to fit"""
    asm = make(False)
    pre = '0x' if radix == 16 else ''
    text = ''
    src = ''
    v = None
    for i in range(len(ops) + 1):
        t, x = number(ctx, 'n%d' % i, n, radix)
        t = pre + heads[i] + t
        x = int(heads[i] + '0' * n, radix) + x
        ctx.assume(x < (1 << 64))
        if v is None:
            v = x
            if form == 'label':
                src = '.org ' + t + '\n'
                t = 'l'
            text = t
        else:
            v = apply(ctx, ops[i - 1], v, x)
            text = text + ops[i - 1] + t
    d = {1: '.db', 2: '.dw', 4: '.dd'}[size]
    st, r = run(ctx, asm, src + 'l: ' + d + ' ' + text)
    top = 1 << (8 * size)
    ok = ctx.and_(v < top, v >= (0 if radix == 16 or form == 'label' else -(top >> 1)))
    if st == 'ok':
        ctx.require(ok, 'an expression whose value does not fit is accepted')
        ctx.require_bytes(asm.assembled_bytes, le(ctx.ite(v < 0, v + top, v), size), 'an expression has the wrong value')
    else:
        ctx.require(ctx.not_(ok), 'an expression whose value fits is refused', detail=repr(r))


def math_div_zero(ctx, n):
    asm = make(False)
    a, av = number(ctx, 'a', n, 10)
    b, bv = number(ctx, 'b', n, 10)
    st, r = run(ctx, asm, '.dw ' + a + '/' + b)
    if st == 'ok':
        ctx.require(bv != 0, 'division by zero is accepted')
    else:
        ctx.require(bv == 0, 'a division is refused')


def math_labels(ctx, first, ops, args, prefix, n, size):
    """expressions over labels: the prefix selects bytes of the first term, then left to right"""
    asm = make(False)
    o, ov = hexlit(ctx, 'org', n)
    env = {}
    src = '.org ' + o + '\naa: .db 1\nbb: .db 2 3\ncc: .db 4\n'
    env = {'aa': ov, 'bb': ov + 1, 'cc': ov + 3}
    v = env[first]
    for ch in prefix:
        if ch == '>':
            v = v >> 8
    k = 0
    for ch in prefix:
        if ch == '<':
            k += 1
    if k:
        v = v & ((1 << (8 * k)) - 1)
    text = prefix + first
    for op, arg in zip(ops, args):
        if arg == '':
            x = 1
        elif arg == '#':
            t, x = hexlit(ctx, 'k%d' % len(text), 2)
            arg = t
        else:
            x = env[arg]
        if op == '/':
            ctx.assume(x != 0)
        v = apply(ctx, op, v, x)
        text = text + op + arg
    d = {1: '.db', 2: '.dw', 4: '.dd'}[size]
    st, r = run(ctx, asm, src + d + ' ' + text)
    top = 1 << (8 * size)
    ok = ctx.and_(v >= 0, v < top)
    if st == 'ok':
        ctx.require(ok, 'a label expression whose value does not fit is accepted')
        ctx.require_bytes(asm.assembled_bytes, bytes([1, 2, 3, 4]) + le(v, size), 'a label expression has the wrong value')
    else:
        ctx.require(ctx.not_(ok), 'a label expression whose value fits is refused')


def math_number_prefix(ctx, prefix, n, size):
    """< and > select bytes of a number exactly as they do for a label"""
    asm = make(False)
    t, v = hexlit(ctx, 'v', n)
    for ch in prefix:
        if ch == '>':
            v = v >> 8
    k = 0
    for ch in prefix:
        if ch == '<':
            k += 1
    if k:
        v = v & ((1 << (8 * k)) - 1)
    d = {1: '.db', 2: '.dw', 4: '.dd'}[size]
    st, r = run(ctx, asm, d + ' ' + prefix + t)
    top = 1 << (8 * size)
    if st == 'ok':
        ctx.require(v < top, 'a value that does not fit is accepted')
        ctx.require_bytes(asm.assembled_bytes, le(v, size), 'byte selection picks the wrong bytes')
    else:
        ctx.require(v >= top, 'a value that fits is refused')


def cases_absolute(tier):
    out = []
    deep = tier != 'quick'
    for size in (1, 2, 4):
        for big in (False, True):
            for place in PLACES:
                for n in ((2, 4, 8) if not deep else range(1, 11)):
                    out.append({'fn': 'harness.labels:absolute', 'params': dict(size=size, big=big, place=place, n=n)})
    for big in (False, True):
        for place in PLACES:
            for n in ((4,) if not deep else (2, 4, 6, 8)):
                for size, bits_size, al, sh, bits in (
                        (1, 8, 1, 0, None), (2, 16, 1, 0, None), (2, 12, 1, 0, None), (2, 16, 2, 1, None),
                        (4, 26, 4, 2, None), (2, 11, 2, 1, (10, 1)), (3, 24, 1, 0, None), (2, 12, 1, 0, (14, 3)),
                        (4, 28, 4, 2, (25, 0)), (2, 10, 4, 2, (7, 0)), (1, 4, 1, 0, (7, 4)),
                        (1, 3, 1, 0, None), (1, 5, 1, 0, None), (1, 7, 2, 0, None), (2, 9, 1, 0, None), (2, 13, 4, 2, None),
                        (3, 17, 1, 0, None), (3, 20, 1, 0, None), (4, 31, 1, 0, None), (4, 32, 1, 0, None), (2, 5, 1, 0, None)):
                    out.append({'fn': 'harness.labels:custom', 'params': dict(
                        big=big, size=size, bits_size=bits_size, alignment=al, shift=sh, bits=bits, relative=None,
                        place=place, n=n)})
    out += cases_shared(['xxn', 'xyn', 'nyn', 'xnn', 'yxx', 'xyx', 'xyy', 'nxy', 'xny'], tier)
    return out


def cases_shared(uses, tier):
    deep = tier != 'quick'
    return [{'fn': 'harness.labels:shared', 'params': dict(big=big, uses=u, n=n, times=k)}
            for u in uses for big in (False, True) for n in ((3,) if not deep else (1, 2, 3, 4)) for k in (1, 2)]


def cases_relative(tier):
    out = []
    deep = tier != 'quick'
    for big in (False, True):
        for place in PLACES:
            for n in ((4,) if not deep else (2, 3, 4, 6)):
                for size, bits_size, al, sh, bits in (
                        (1, 8, 1, 0, None), (2, 16, 1, 0, None), (2, 9, 2, 1, (7, 0)), (2, 12, 2, 1, (10, 0)),
                        (4, 18, 4, 2, (15, 0)), (4, 26, 4, 0, None), (1, 4, 1, 0, None), (1, 6, 1, 0, None), (2, 11, 1, 0, None),
                        (3, 24, 1, 0, None), (4, 32, 1, 0, None)):
                    for rel in (1, 2, 4) + ((-1, 0) if place != 'other_org' or deep else (-1,)):
                        out.append({'fn': 'harness.labels:custom', 'params': dict(
                            big=big, size=size, bits_size=bits_size, alignment=al, shift=sh, bits=bits, relative=rel,
                            place=place, n=n)})
        for size in (1, 2, 4):
            for back in (False, True):
                for rel in (0, 1, 3) if size < 4 or deep else (0,):
                    for times in (2, 3):
                        out.append({'fn': 'harness.labels:repeated', 'params': dict(
                            big=big, size=size, relative=rel, back=back, times=times, n=2)})
    return out


def cases_unknown(tier):
    out = []
    deep = tier != 'quick'
    for size in (1, 2, 4):
        for form in ('plain', 'plus', 'low', 'high', 'low2', 'minus', 'times', 'and', 'second', 'prefixed') + tuple(
                k + o for k in ('num', 'lab') for o in '+-*/&|'):
            for n, m in (((1, 1), (2, 2), (2, 1), (3, 2)) if not deep else
                         [(a, b) for a in range(1, 5) for b in range(1, 5)]):
                for big in (False, True):
                    out.append({'fn': 'harness.labels:unknown', 'params': dict(size=size, big=big, n=n, m=m, form=form)})
    for n in ((1, 2, 3) if not deep else range(1, 7)):
        for k in ('dup', 'dup-org', 'dup-bounded', 'dup-section', 'dup-ram', 'dup-same', 'dup-many', 'dup-macro', 'dup-repeat'):
            out.append({'fn': 'harness.labels:define_errors', 'params': dict(kind=k, n=n)})
        out.append({'fn': 'harness.labels:define_errors', 'params': dict(kind='chars', n=n)})
    out += cases_shared(['uxn', 'xun', 'nux', 'unx', 'uxy', 'xuy', 'xyu', 'uuu', 'unn', 'uux'], tier)
    return out


def cases_math(tier):
    out = []
    deep = tier != 'quick'
    ALL = '+-*/&|'

    def add(fn, **p):
        out.append({'fn': 'harness.labels:' + fn, 'params': p,
                    'cost': 5 if 'ops' in p and set(p['ops']) & set('*/') else 1})
    for a in ALL:
        for size in (1, 2, 4):
            add('math_numbers', ops=a, n=3 if a not in '*/' or deep else 2, radix=10, size=size)
            add('math_numbers', ops=a, n=2, radix=16, size=size)
        for b in ALL:
            n = 1 if '*' in a + b or '/' in a + b else 2
            add('math_numbers', ops=a + b, n=n, radix=10, size=1)
            add('math_numbers', ops=a + b, n=n, radix=16, size=2)
            if deep:
                add('math_numbers', ops=a + b, n=2, radix=10, size=2)
                add('math_numbers', ops=a + b, n=2, radix=16, size=2)
                for c in ALL:
                    add('math_numbers', ops=a + b + c, n=1, radix=16, size=2)
                    add('math_numbers', ops=a + b + c, n=1, radix=10, size=1)
    add('math_div_zero', n=2)
    for form in ('number', 'label'):
        for size in (1, 2, 4):
            for a, h in (('-', '1000000'), ('-', '800000000000'), ('&', '1000000'), ('&', 'ffffffffffff'), ('|', '1'), ('/', '10000000'),
                         ('/', 'ffffffffffff0'), ('-', 'ffffffffffff'), ('+', 'ffffff')):
                add('math_wide', form=form, ops=a, heads=[h, h], n=2 if a != '/' else 1, radix=16, size=size)
            for a, h in (('-', '42949672'), ('-', '9999999999999999'), ('/', '42949672')):
                add('math_wide', form=form, ops=a, heads=[h, h], n=2 if a != '/' else 1, radix=10, size=size)
            for a, h in (('-+', ['1', '1000000000', '100000000']), ('+-', ['ffffffff', '0', 'ffffffff']), ('*/', ['40000000', '100000', '1000000000000']),
                         ('*-', ['100000', '100000', '100000000000']), ('&+', ['100000000', 'f', 'e']), ('|&', ['10000000000', 'ff', 'f'])):
                n = 1 if set(a) & set('*/') else 2
                if '*' not in a or form == 'number' or size == 4:
                    add('math_wide', form=form, ops=a, heads=[x[:16 - n] for x in h], n=n, radix=16, size=size)
    for prefix in ('', '<', '>', '<<', '>>', '><', '>><', '><<', '>>>', '>>><', '<<<', '<<<<', '<<<<<', '>>>>', '>>>><', '><<<'):
        for first in ('aa', 'cc'):
            for size in (1, 2, 4):
                for n in (4, 8) + ((9, 10) if deep else ()):
                    add('math_labels', first=first, ops='', args=[], prefix=prefix, n=n, size=size)
        for size in (1, 2, 4):
            for n in (2, 4, 6, 8, 10) + ((12,) if deep else ()):
                add('math_number_prefix', prefix=prefix, n=n, size=size)
    for op in ALL:
        for arg in ('aa', 'bb', '#', ''):
            n = {'*': 2, '/': 2}.get(op, 4) if arg else 4
            for first in ('aa', 'bb', 'cc'):
                for size in (1, 2):
                    add('math_labels', first=first, ops=op, args=[arg], prefix='', n=n, size=size)
            add('math_labels', first='cc', ops=op, args=[arg], prefix='>', n=n, size=2)
            add('math_labels', first='cc', ops=op, args=[arg], prefix='<', n=n, size=2)
    for ops in ('--', '-+', '+-', '-*', '-/', '+&', '|&', '*+', '-+-'):
        for first, args in (('cc', ['aa', '#']), ('bb', ['#', 'cc']), ('cc', ['aa', ''])):
            if len(ops) > 2:
                args = args + ['#']
            add('math_labels', first=first, ops=ops, args=args, prefix='', size=2,
                n=2 if '*' in ops or '/' in ops else 4)
    return out
