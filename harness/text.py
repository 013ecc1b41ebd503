"""Macros, defines, included files: programs mean the same as their expanded text."""
from necroassembler import Assembler, opcode
from harness.lib import hexlit, declit, number, le, run

NAME = 'abAB_1'


class Cpu(Assembler):
    hex_prefixes = ('0x',)

    def register_instructions(self):
        self.register_instruction('NOP', b'\xA0')

    @opcode('LOAD')
    def load(self, instr):
        for i in range(4):
            if instr.match('R%d' % i, None):
                return bytes([0xB0 + i, self.parse_integer_or_label(label=instr.tokens[2], size=1, bits_size=8, offset=1)])
            if instr.match('(', 'R%d' % i, ')', None):
                return bytes([0xC0 + i, self.parse_integer_or_label(label=instr.tokens[4], size=1, bits_size=8, offset=1)])
        return None

    @opcode('JMP')
    def jmp(self, instr):
        v = self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=16, offset=1)
        return bytes([0xD0]) + le(v, 2)

    @opcode('TEXT')
    def text(self, instr):
        """the operands exactly as the instruction sees them"""
        out = b''
        for t in instr.tokens[1:]:
            out = out + t.encode('ascii') + b'\x00'
        return out

    @opcode('IMM')
    def imm(self, instr):
        if instr.tokens[1][0] != '#':
            return None
        return bytes([0xD1, self.parse_integer_or_label(label=instr.tokens[1][1:], size=1, bits_size=8, offset=1)])


def name(ctx, key, n):
    t = ctx.chars(key, n, NAME)
    ctx.assume(t[0] != '1')
    return t


def same(ctx, src, expanded, known=None):
    """two sources give the same bytes, or are both refused"""
    a, b = Cpu(), Cpu()
    s1, r1 = run(ctx, a, src)
    s2, r2 = run(ctx, b, expanded)
    ctx.require(s1 == s2, 'only one of a program and its expansion is accepted', detail=repr((r1, r2)), known=known)
    if s1 == 'ok':
        ctx.require_bytes(a.assembled_bytes, b.assembled_bytes, 'a program and its expansion differ', known=known)
        ctx.require(len(a.labels) == len(b.labels), 'labels differ')
        for k in b.labels:
            ctx.require(a.get_label_absolute_address_by_name(k) == b.get_label_absolute_address_by_name(k), 'a label moves')


# bodies: {0} {1} are the parameters
BODIES = {
    'operand': ['LOAD R1, {0}'],
    'register': ['LOAD {1}, {0}'],
    'bracket': ['LOAD ({1}), {0}'],
    'mnemonic': ['{1} R2, {0}'],
    'prefix': ['IMM #{0}', 'NOP'],
    'math': ['LOAD R1, {0}+1', 'LOAD R2, 1+{0}'],
    'two': ['LOAD R1, {0}', 'LOAD R2, {1}'],
    'swap': ['LOAD R1, {1}', 'LOAD R2, {0}', 'NOP'],
    'directive': ['.db {0}, 1', 'NOP', '.dw {1}'],
    'repeat': ['.repeat 2', '.db {0}', '.endrepeat', '.db {1}'],
    'string': ['.db {0}', '.db "{p0} {p1}"'],
    'label': ['JMP lab', '.db {0}', 'JMP lab'],
    'none': ['NOP', 'NOP'],
}


def fill(lines, a, b, p0='', p1=''):
    out = ''
    for l in lines:
        parts = [l]
        out = out + replace(replace(replace(replace(l, '{0}', a), '{1}', b), '{p0}', p0), '{p1}', p1) + '\n'
    return out


def replace(text, key, value):
    i = 0
    out = ''
    # the bodies are fixed text, only the replacement is symbolic
    if not isinstance(text, str):
        return join(text, key, value)
    while True:
        j = text.find(key, i)
        if j < 0:
            return out + text[i:]
        out = out + text[i:j] + value
        i = j + len(key)


def join(text, key, value):
    out = ''
    i = 0
    n = len(text)
    k = len(key)
    while i < n:
        if i + k <= n and text[i:i + k] == key:
            out = out + value
            i += k
        else:
            out = out + text[i]
            i += 1
    return out


def args(ctx, body, i):
    """two arguments for one invocation"""
    t, v = hexlit(ctx, 'x%d' % i, 2)
    if body in ('register', 'bracket'):
        return t, ctx.pick('r%d' % i, ['R0', 'R1', 'R2', 'R3'])
    if body == 'mnemonic':
        return t, ctx.pick('m%d' % i, ['LOAD', 'load'])
    u, w = hexlit(ctx, 'y%d' % i, 2)
    return t, u


def macro(ctx, body, n, times):
    """invoking a macro is the same as writing its body with the arguments in place of the parameters"""
    p0 = name(ctx, 'p0', n)
    p1 = name(ctx, 'p1', n)
    ctx.assume(p0 != p1)
    lines = BODIES[body]
    src = '.macro mac ' + p0 + ', ' + p1 + '\n' + fill(lines, p0, p1, p0, p1) + '.endmacro\nlab: .db 9\n'
    exp = 'lab: .db 9\n'
    for i in range(times):
        a, b = args(ctx, body, i)
        src = src + ctx.pick('call%d' % i, ['mac', 'MAC']) + ' ' + a + ' ' + b + '\n.db 8\n'
        exp = exp + fill(lines, a, b, p0, p1) + '.db 8\n'
    same(ctx, src, exp)


def macro_params(ctx, k, times):
    """macros of any number of parameters; surplus arguments are ignored, missing ones refused"""
    ps = ['pa', 'pb', 'pc', 'pd', 'pe', 'pf'][:k]
    lines = ['NOP']
    for i in range(k):
        lines.append('.db ' + ', '.join(reversed(ps[i:])))
        lines.append('LOAD R%d, %s' % (i % 4, ps[i]))
    src = '.macro mac ' + ', '.join(ps) + '\n' + '\n'.join(lines) + '\n.endmacro\n'
    exp = ''
    for j in range(times):
        vals = []
        src = src + 'mac'
        for i in range(k):
            t, v = hexlit(ctx, 'x%d_%d' % (j, i), 2)
            vals.append(t)
            src = src + ' ' + t
        src = src + '\n'
        for l in lines:
            for i in range(k):
                l = replace(l, ps[i], vals[i])
            exp = exp + l + '\n'
    same(ctx, src, exp)


def macro_twin(ctx, k, times):
    """parameters that are prefixes of each other, or equal to the arguments of other parameters"""
    ps = ['a', 'aa', 'b', 'ab'][:k]
    u = []
    src = '.define q 5\na: aa: b: ab: .db 1\n.macro mac ' + ' '.join(ps) + '\n'
    exp = '.define q 5\na: aa: b: ab: .db 1\n'
    for p in ps:
        src = src + 'JMP ' + p + '\nJMP ' + p + '+2\n'
    src = src + '.endmacro\n'
    for j in range(times):
        src = src + 'mac'
        for i in range(k):
            a = ctx.pick('n%d_%d' % (j, i), ['a', 'b', 'q', '7'])
            src = src + ' ' + a
            exp = exp + 'JMP ' + a + '\nJMP ' + a + '+2\n'
        src = src + '\n'
    same(ctx, src, exp)


def macro_capture(ctx, n, m):
    """a parameter replaces whole names only"""
    p = name(ctx, 'p', n)
    q = name(ctx, 'q', m)
    t, v = hexlit(ctx, 'x', 2)
    src = '.macro mac ' + p + '\nJMP ' + q + '\n.endmacro\n' + q + ': .db 1\nmac ' + t + '\n'
    exp = q + ': .db 1\nJMP ' + (t if p == q else q) + '\n'
    same(ctx, src, exp)


def macro_defined(ctx, n):
    """the names a .macro declares are its own, whatever was defined before"""
    p = name(ctx, 'p', n)
    d = name(ctx, 'd', n)
    t, v = hexlit(ctx, 'x', 2)
    u, w = hexlit(ctx, 'y', 2)
    src = '.define ' + d + ' ' + u + '\n.macro mac ' + p + '\nLOAD R1, ' + p + '\n.db ' + d + '\n.endmacro\nmac ' + t + '\n'
    last = t if p == d else u
    same(ctx, src, 'LOAD R1, ' + t + '\n.db ' + last + '\n')


def macro_two(ctx, n):
    """macros may invoke other macros, and a later definition replaces an earlier one"""
    m1 = name(ctx, 'm1', n)
    m2 = name(ctx, 'm2', n)
    t, v = hexlit(ctx, 'x', 2)
    u, w = hexlit(ctx, 'y', 2)
    ctx.assume(ctx.and_(m1.upper() != 'NOP', m2.upper() != 'NOP'))
    src = ('.macro ' + m1 + ' a\nLOAD R1, a\n.endmacro\n.macro ' + m2 + ' b\nLOAD R2, b\n.endmacro\n' +
           m1 + ' ' + t + '\n' + m2 + ' ' + u + '\n')
    clash = m1.upper() == m2.upper()
    exp = 'LOAD R' + ('2' if clash else '1') + ', ' + t + '\nLOAD R2, ' + u + '\n'
    same(ctx, src, exp)


def macro_nest(ctx):
    t, v = hexlit(ctx, 'x', 2)
    u, w = hexlit(ctx, 'y', 2)
    src = ('.macro inner a\nLOAD R1, a\n.endmacro\n.macro outer a b\ninner b\ninner a\nLOAD R2, a\n.endmacro\n' +
           'outer ' + t + ' ' + u + '\nouter ' + u + ' ' + t + '\n')
    exp = ''
    for p, q in ((t, u), (u, t)):
        exp = exp + 'LOAD R1, ' + q + '\nLOAD R1, ' + p + '\nLOAD R2, ' + p + '\n'
    same(ctx, src, exp)


def macro_shadow(ctx, n, times):
    """a macro may have the name of an instruction (and is then invoked instead), of a label or of a directive"""
    m = ctx.pick('m', ['NOP', 'nop', 'Load', 'LOAD', 'imm', 'db', 'org', 'lab', 'R1'])
    c = ctx.pick('c', ['NOP', 'nop', 'Load', 'load', 'IMM', 'DB', 'org', 'lab', 'r1'])
    ctx.assume(m.upper() == c.upper())
    src = 'lab: NOP\n.macro ' + m + ' a\n.db a, 7\n.endmacro\n'
    exp = 'lab: NOP\n'
    for i in range(times):
        t, v = hexlit(ctx, 'x%d' % i, n)
        src = src + c + ' ' + t + '\n.db ' + t + '\nJMP lab\n'
        exp = exp + '.db ' + t + ', 7\n.db ' + t + '\nJMP lab\n'
    same(ctx, src, exp)


def macro_again(ctx, n):
    """a macro recorded again under its name is replaced, from there on, whatever its parameters were"""
    m1 = name(ctx, 'm1', n)
    m2 = name(ctx, 'm2', n)
    t, v = hexlit(ctx, 'x', 2)
    ctx.assume(m1.upper() == m2.upper())
    src = ('.macro ' + m1 + ' a\nLOAD R1, a\n.endmacro\n' + m2 + ' ' + t + '\n.macro ' + m2 + ' b c\nLOAD R2, c\nNOP\n.endmacro\n' +
           m1 + ' 1 ' + t + '\n' + m2 + ' ' + t + ' 2\n.macro ' + m1 + '\n.endmacro\n' + m2 + '\nNOP\n')
    exp = 'LOAD R1, ' + t + '\nLOAD R2, ' + t + '\nNOP\nLOAD R2, 2\nNOP\nNOP\n'
    same(ctx, src, exp)


def macro_errors(ctx, form):
    t, v = hexlit(ctx, 'x', 2)
    asm = Cpu()
    src = {'nested': '.macro a\n.macro b\n.endmacro\n.endmacro', 'label': '.macro a\nlab:\n.endmacro', 'end': '.endmacro',
           'missing': '.macro a x y\nLOAD R1, x\nLOAD R2, y\n.endmacro\na ' + t,
           'before': 'mac ' + t + '\n.macro mac a\nLOAD R1, a\n.endmacro'}[form]
    st, r = run(ctx, asm, '.db ' + t + '\n' + src)
    ctx.require(st == 'err', 'a malformed macro is accepted')


DEF = {
    'operand': 'LOAD R1, {0}',
    'first': 'LOAD {0}, 5',
    'bracket': 'LOAD ({0}), 7',
    'mnemonic': '{0} R1, 4',
    'immediate': 'IMM #{0}',
    'math': 'LOAD R1, {0}+2\nLOAD R1, 2+{0}\nLOAD R1, {0}|{0}',
    'directive': '.db {0}, 5, {0}\n.dw {0}',
    'org': '.org {0}\nhere: .dw here',
    'string': ".db \"{1}\"\n.db '{1} {1}'\n.db {0}",
}


def define(ctx, form, n):
    """a defined name stands for its text in every later statement, and only there"""
    d = name(ctx, 'd', n)
    if form in ('first', 'bracket'):
        t = ctx.pick('t', ['R0', 'R1', 'R2', 'r3'])
    elif form == 'mnemonic':
        t = ctx.pick('t', ['LOAD', 'load'])
    else:
        t, v = hexlit(ctx, 't', 2)
    line = DEF[form]
    # defined names that occur in the fixed text would be replaced there too
    for w in ('R1', 'r1', '1'):
        ctx.assume(d != w)
    src = '.define ' + d + ' ' + t + '\n' + replace(replace(line, '{0}', d), '{1}', d) + '\n'
    exp = replace(replace(line, '{0}', t), '{1}', d) + '\n'
    same(ctx, src, exp)


EDGES = '#@!$%&*+-/<=>?^|~\\`{}[]().,:_19zZ'


def define_edges(ctx, n):
    """a defined name is a whole name whatever stands around it"""
    d = name(ctx, 'd', n)
    for w in ('r', 'R'):
        ctx.assume(d != w)
    l = ctx.chars('l', 1, EDGES)
    r = ctx.chars('r', 1, EDGES)
    m = ctx.chars('m', 1, EDGES)

    def part(a, b):
        t = False
        for c in '_19zZ':
            t = ctx.or_(t, a == c, b == c)
        return t
    # (names may contain dots, and a dot is no letter: whether NAME.X holds NAME is left open)
    for c in '.:':
        ctx.assume(ctx.and_(l != c, r != c, m != c))
    src = '.define ' + d + ' 0x5A\nTEXT ' + l + d + r + '\nTEXT ' + d + m + d + '\n'
    one = d if part(l, r) else '0x5A'
    two = d if part(m, m) else '0x5A'
    exp = 'TEXT ' + l + one + r + '\nTEXT ' + two + m + two + '\n'
    if n == 1:
        # a name of twice its length could be the name itself only by repetition of digits
        ctx.assume(ctx.and_(d != '_'))
    same(ctx, src, exp)


def define_many(ctx, k):
    """definitions do not disturb each other, and a value may be anything"""
    src = ''
    vals = []
    for i in range(k):
        t, v = hexlit(ctx, 'v%d' % i, 2)
        vals.append(t)
        src = src + '.define ' + 'abcde'[i] * (i % 2 + 1) + ' ' + t + '\n'
    exp = ''
    for i in range(k):
        nm = 'abcde'[i] * (i % 2 + 1)
        src = src + 'JMP ' + nm + '\nLOAD R1 <' + nm + '+' + 'abcde'[0] + '\n'
        exp = exp + 'JMP ' + vals[i] + '\nLOAD R1 <' + vals[i] + '+' + vals[0] + '\n'
    same(ctx, src, exp)


def define_chain(ctx, n, m):
    """a definition keeps the value it was given, even when that is the name of a label or of a later definition"""
    d = name(ctx, 'd', n)
    e = name(ctx, 'e', m)
    f = name(ctx, 'f', m)
    t, v = hexlit(ctx, 't', 2)
    ctx.assume(ctx.and_(d != e, d != f))
    src = 'x: .db 1\n' + d + ': ' + e + ': ' + (f + ': ' if e != f else '') + '.db 2\n'
    exp = src
    # d means e (the label), also after e is defined; e is replaced at once where it is already defined
    src = src + '.define ' + d + ' ' + e + '\nJMP ' + d + '\n.define ' + e + ' ' + t + '\nJMP ' + d + '\nJMP ' + d + '+1\nJMP ' + e + '\n'
    exp = exp + 'JMP ' + e + '\nJMP ' + e + '\nJMP ' + e + '+1\nJMP ' + t + '\n'
    src = src + '.define ' + f + ' ' + e + '\nJMP ' + f + '\n.define ' + d + ' ' + f + '\nJMP ' + d + '\n'
    exp = exp + 'JMP ' + t + '\nJMP ' + t + '\n'
    same(ctx, src, exp)


def define_scope(ctx, n, m):
    """only whole names are replaced, only after the definition, and the last definition counts"""
    d = name(ctx, 'd', n)
    e = name(ctx, 'e', m)
    t, v = hexlit(ctx, 't', 2)
    u, w = hexlit(ctx, 'u', 2)
    src = 'JMP ' + d + '\n' + d + ': .db 1\n'
    src = src + '.define ' + d + ' ' + t + '\nJMP ' + d + '\n.define ' + e + ' ' + u + '\nJMP ' + d + '\nJMP ' + e + '\n'
    exp = 'JMP ' + d + '\n' + d + ': .db 1\n'
    exp = exp + 'JMP ' + t + '\nJMP ' + (u if d == e else t) + '\nJMP ' + u + '\n'
    same(ctx, src, exp)


def define_errors(ctx, form):
    asm = Cpu()
    t, v = hexlit(ctx, 'x', 2)
    src = {'none': '.define', 'one': '.define A', 'three': '.define A ' + t + ' ' + t}[form]
    st, r = run(ctx, asm, src)
    ctx.require(st == 'err' and r == 'InvalidArgumentsForDirective', 'a malformed definition is accepted')


# ------------------------------------------------------------------ files

def include(ctx, form, n):
    """including a file is the same as writing its text in place"""
    a, av = hexlit(ctx, 'a', 2)
    o, ov = hexlit(ctx, 'o', 2)
    e, ev = hexlit(ctx, 'e', 3)
    pre, inc, post = {
        'plain': ('.db 1\n', '.db ' + a + '\n', '.db 3\n'),
        'noeol': ('.db 1\n', '.db ' + a, '.db 3\n'),
        'comment': ('.db 1\n', '.db ' + a + ' ; text', '.db 3\n'),
        'labels': ('JMP in\nout: .db 1\n', 'in: .db ' + a + '\nJMP out\nJMP later\n', '.db 3\nlater: JMP in\n'),
        'bounded': ('.org ' + o + ' ' + e + '\n.db 1\n', '.db ' + a + '\n', 'x: .db 3\nJMP x\n'),
        'opens': ('.db 1\n', '.org ' + o + ' ' + e + '\n.db ' + a + '\n', 'x: .db 3\n'),
        'defs': ('.db 1\n', '.define foo ' + a + '\n.macro bar p\nLOAD R1, p\n.endmacro\n', 'bar foo\n.db foo\n'),
        'uses': ('.define foo ' + a + '\n.macro bar p\nLOAD R1, p\n.endmacro\n', 'bar foo\n.db foo\n', 'bar 7\n'),
        'empty': ('.db ' + a + '\n', '', '.db 3\n'),
        'section': ('.section one R\n.db 1\n', '.db ' + a + '\n', '.db 3\n.section two W\n.db 4\n'),
        'inrepeat': ('.repeat 3\n', '.db ' + a + '\n', '.endrepeat\n'),
    }[form]
    ctx.assume(ev > 0)
    ctx.file('inc.S', inc)
    sp = ctx.pick('q', ['"inc.S"', "'inc.S'"]) if n else 'inc.S'
    src = pre + '.include ' + sp + '\n' + post
    exp = pre + inc + '\n' + post
    same(ctx, src, exp)


def include_nested(ctx):
    a, av = hexlit(ctx, 'a', 2)
    b, bv = hexlit(ctx, 'b', 2)
    ctx.file('in1.S', '.db ' + a + '\n.include "in2.S"\n.db ' + b + '\n')
    ctx.file('in2.S', 'x: .db ' + b + ', ' + a + '\n')
    same(ctx, '.db 1\n.include "in1.S"\nJMP x\n.incbin "in2.S"\n',
         '.db 1\n.db ' + a + '\nx: .db ' + b + ', ' + a + '\n.db ' + b + '\nJMP x\n.db "x: .db ' + b + ', ' + a + '"\n.db 10\n')


def incbin(ctx, n):
    """the bytes of a file are copied verbatim"""
    asm = Cpu()
    blob = ctx.bytes('blob', n)
    ctx.file('data.bin', blob)
    st, r = run(ctx, asm, '.org 0x10\n.db 1\n.incbin "data.bin"\nend: .db 2\n')
    ctx.require(st == 'ok', 'a file is refused')
    ctx.require_bytes(asm.assembled_bytes, b'\x01' + blob + b'\x02', 'a file is not copied verbatim')
    ctx.require(asm.get_label_absolute_address_by_name('end') == 0x11 + n, 'the address after a file is wrong')


def inccsv(ctx, rows, wide, n):
    """every cell is one number, row by row"""
    asm = Cpu()
    text = ''
    want = b''
    ok = True
    top = 65536 if wide else 256
    k = 0
    for r in range(len(rows)):
        for c in range(rows[r]):
            t, v = declit(ctx, 'v%d' % k, n)
            text = text + (',' if c else '') + t
            ok = ctx.and_(ok, v < top)
            want = want + (le(v, 2) if wide else bytes([v & 0xff]))
            k += 1
        text = text + '\n'
    ctx.file('t.csv', text)
    st, r = run(ctx, asm, '.db 1\n.inccsv' + ('_le16' if wide else '') + ' "t.csv"\nend: .db 2')
    if st == 'ok':
        ctx.require(ok, 'a cell that does not fit is accepted')
        ctx.require_bytes(asm.assembled_bytes, b'\x01' + want + b'\x02', 'a table is emitted wrongly')
    else:
        ctx.require(ctx.not_(ok), 'a table is refused', detail=repr(r))


def long_rows(ctx, n, wide, fmt):
    """tables of any shape: no row or list is too long, and empty cells are refused, never skipped"""
    asm = Cpu()
    at = ctx.index('at', 3)
    at = [0, n // 2, n - 1][at]
    t, v = declit(ctx, 'v', 3)
    cells = [str((i * 37 + 5) % 256) for i in range(n)]
    want = [(i * 37 + 5) % 256 for i in range(n)]
    want[at] = v
    blob = b''
    for i in range(n):
        blob = blob + (le(want[i], 2) if wide else bytes([want[i] & 0xff]))
    if fmt == 'json':
        items = list(want)
        ctx.json_file('t.bin', {'a': {'b': items, 'c': 5}, 'b': [7]})
        d = '.incjson "t.bin" a.b'
    else:
        text = ''
        for i in range(n):
            text = text + (t if i == at else cells[i]) + ('\n' if fmt == 'column' or i == n - 1 else ',')
        ctx.file('t.bin', text)
        d = '.inccsv_le16 "t.bin"' if wide else '.inccsv "t.bin"'
    st, r = run(ctx, asm, '.db 1\n' + d + '\nend: .db 2')
    fits = True if wide else v < 256
    ctx.require(fits if st == 'ok' else ctx.not_(fits), 'the outcome for a long table is wrong', detail=repr(r))
    if st == 'ok':
        ctx.require_bytes(asm.assembled_bytes, b'\x01' + blob + b'\x02', 'a long table is emitted wrongly')


def incjson(ctx, n, strings, depth):
    """the items at a path are bytes, whether numbers or literals"""
    asm = Cpu()
    items = []
    want = b''
    ok = True
    for i in range(n):
        if strings:
            t, v = hexlit(ctx, 'v%d' % i, 3)
            items.append(t)
        else:
            v = ctx.int('v%d' % i, -300, 600)
            items.append(v)
        ok = ctx.and_(ok, v >= 0, v < 256)
        want = want + bytes([v & 0xff])
    obj = items
    path = ''
    for i in range(depth):
        obj = {'k%d' % i: obj, 'other': [1]}
        path = 'k%d' % i + ('.' if path else '') + path
    ctx.json_file('t.json', obj)
    st, r = run(ctx, asm, '.db 1\n.incjson "t.json" ' + path + '\nend: .db 2')
    if st == 'ok':
        ctx.require(ok, 'an item that does not fit is accepted')
        ctx.require_bytes(asm.assembled_bytes, b'\x01' + want + b'\x02', 'a list is emitted wrongly')
    else:
        ctx.require(ctx.not_(ok), 'a list is refused', detail=repr(r))


def missing(ctx, d):
    asm = Cpu()
    t, v = hexlit(ctx, 'v', 2)
    st, r = run(ctx, asm, '.db ' + t + '\n' + d + '\n.db 2')
    ctx.require(st == 'err', 'a missing file is ignored')


def case(fn, **p):
    return {'fn': 'harness.text:' + fn, 'params': p}


def cases_macro(tier):
    out = []
    deep = tier != 'quick'
    for b in BODIES:
        for n in (1, 2, 3) if not deep else (1, 2, 3, 4):
            for times in (1, 2) if not deep else (1, 2, 3, 4):
                out.append(case('macro', body=b, n=n, times=times))
    for k in range(0, 6 if not deep else 7):
        for times in (1, 2) if not deep else (1, 2, 3, 4):
            out.append(case('macro_params', k=k, times=times))
    for k, times in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)) + (((4, 1), (3, 2)) if deep else ()):
        out.append(case('macro_twin', k=k, times=times))
    for n in range(1, 4 if not deep else 6):
        for m in range(1, 4 if not deep else 6):
            out.append(case('macro_capture', n=n, m=m))
        out.append(case('macro_two', n=n))
        out.append(case('macro_defined', n=n))
    for times in (1, 2):
        for n in (1, 2, 3):
            out.append(case('macro_shadow', n=n, times=times))
            if times == 1:
                out.append(case('macro_again', n=n))
    out.append(case('macro_nest'))
    for f in ('nested', 'label', 'end', 'missing', 'before'):
        out.append(case('macro_errors', form=f))
    return out


def cases_define(tier):
    out = []
    deep = tier != 'quick'
    for f in DEF:
        for n in range(1, 4 if not deep else 7):
            out.append(case('define', form=f, n=n))
    for n in range(1, 4 if not deep else 6):
        for m in range(1, 4 if not deep else 6):
            out.append(case('define_scope', n=n, m=m))
        for m in range(1, 3 if not deep else 5):
            out.append(case('define_chain', n=n, m=m))
        out.append(case('define_edges', n=n))
        out.append(case('define_many', k=n))
    out.append(case('define_many', k=5))
    for f in ('none', 'one', 'three'):
        out.append(case('define_errors', form=f))
    return out


def cases_files(tier):
    out = []
    deep = tier != 'quick'
    for f in ('plain', 'noeol', 'comment', 'labels', 'bounded', 'opens', 'defs', 'uses', 'empty', 'section', 'inrepeat'):
        for n in (0, 1):
            out.append(case('include', form=f, n=n))
    out.append(case('include_nested'))
    for n in (0, 1, 2, 5, 16) + ((64, 300) if deep else ()):
        out.append(case('incbin', n=n))
    for wide in (False, True):
        for rows in ([1], [2], [1, 1], [2, 1], [0, 2]) + (([3, 3], [4, 0, 4], [1, 2, 3]) if deep else ()):
            for n in ((1, 3, 5) if wide else (1, 2, 3)):
                out.append(case('inccsv', rows=rows, wide=wide, n=n))
    for n in (0, 1, 2, 3) + ((6,) if deep else ()):
        for s in (False, True):
            for depth in (1, 2, 3):
                out.append(case('incjson', n=n, strings=s, depth=depth))
    for n in (9, 17, 33, 65, 257) + ((1025, 4097) if deep else ()):
        for fmt, wide in (('row', False), ('row', True), ('column', False), ('column', True), ('json', False)):
            out.append(case('long_rows', n=n, wide=wide, fmt=fmt))
    for d in ('.include "no.S"', '.incbin "no.bin"', '.inccsv "no.csv"', '.incjson "no.json" a', '.inccsv_le16 "no.csv"',
              '.include', '.incbin', '.incjson "x"', '.inccsv'):
        out.append(case('missing', d=d))
    return out
