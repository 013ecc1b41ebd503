"""What is reported: the place of a refused statement, the label of a refused reference, the log."""
from necroassembler import Assembler, opcode
from harness.lib import hexlit, declit, number, le, be, run


class Cpu(Assembler):
    hex_prefixes = ('0x',)

    def register_instructions(self):
        self.register_instruction('NOP', b'\xA0')

    @opcode('LOAD')
    def load(self, instr):
        if instr.match(None):
            return b'\xB1' + bytes([self.parse_integer_or_label(label=instr.tokens[1], size=1, bits_size=8, offset=1)])
        return None

    @opcode('JUMP')
    def jump(self, instr):
        if instr.match(None):
            return b'\xB2' + le(self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=16, offset=1), 2)
        return None

    @opcode('SKIP')
    def skip(self, instr):
        if instr.match(None):
            v = self.parse_integer_or_label(label=instr.tokens[1], size=1, bits_size=8, offset=1, relative=self.pc + 2)
            return b'\xB3' + bytes([v & 0xff])
        return None

    @opcode('EVEN')
    def even(self, instr):
        if instr.match(None):
            return b'\xB4' + le(self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=16, offset=1, alignment=4), 2)
        return None

    @opcode('NEAR')
    def near(self, instr):
        if instr.match(None):
            v = self.parse_integer_or_label(label=instr.tokens[1], size=1, bits_size=8, offset=1, alignment=4, relative=self.pc + 2)
            return b'\xB5' + bytes([v & 0xff])
        return None

    @opcode('FAULT')
    def fault(self, instr):
        # an error of the implementation of an instruction
        return bytes([int('x')])


class Big(Cpu):
    big_endian = True


# statement, its tokens
BAD = {
    'unknown': ('bogus 1', ['bogus', '1']),
    'directive': ('.bogus 1, 2', ['.bogus', '1', '2']),
    'operands': ('load 1 2', ['load', '1', '2']),
    'none': ('jump', ['jump']),
    'surplus': ('nop x', ['nop', 'x']),
    'range': ('load 999', ['load', '999']),
    'twice': ('here:', ['here']),
    'name': ('a-b:', ['a-b']),
    'number': ('12:', ['12']),
    'few': ('.macro two x y\nnop\n.endmacro\ntwo 1', ['two', '1']),
    'colon': (':', []),
    'behind': ('nop lab:', ['nop', 'lab']),
    'apart': ('lab :', ['lab']),
    'doubled': ('lab::', []),
    'error': ('fault', ['fault']),
    'negative': ('load -0x1', ['load', '-0x1']),
}
BEFORE = {
    'plain': ('', '\n'), 'comment': ('; ', '\n'), 'string': ('.db "', '"\n'), 'char': (".db '", "'\n"), 'word': ('nop ', '\n'),
    'label': ('l: ', '\n'), 'escape': ('.db "\\', '"\n'), 'after': ('nop;', '\nnop\n\n'), 'same': ('', '\nl: '), 'cr': ('\r\n', '\r\n'),
}


def count(ctx, text):
    n = 0
    for c in text:
        n = n + ctx.ite(c == '\n', 1, 0)
    return n


def line(ctx, bad, before, n, alphabet, name):
    """a refused statement is named by its line, its file and its text"""
    pre, post = BEFORE[before]
    t = ctx.chars('t', n, alphabet)
    text, tokens = BAD[bad]
    head = 'here: nop\n' + pre + t + post
    src = head + text + ' ; why\nnop\n'
    asm = Cpu()
    if name:
        ctx.file(name, src)
        st, r = ctx.attempt(asm.assemble_file, name)
    else:
        st, r = ctx.attempt(asm.assemble, src)
    ctx.require(st == 'err', 'a malformed statement is accepted')
    m = ctx.message()
    at = 1 + count(ctx, head) + count(ctx, text)
    if bad == 'negative':
        # its sign is refused before its text is looked at
        ctx.require(r == 'NegativeSignNotAllowed' or r == 'InvalidInstruction', 'refused for another reason', detail=repr(m))
    want = 'at line %d' % at + (' of ' + name if name else '') + ': ' + str(tokens)
    ctx.require(m.endswith(want), 'a refusal names the wrong place', detail=repr((m, want)))


def literal_line(ctx, q, n, m):
    """an unterminated quotation is named by the line it starts on"""
    t = ctx.chars('t', n, ' \n;a,')
    u = ctx.chars('u', m, 'b\n ;:')
    asm = Cpu()
    head = 'nop\n' + t + '\n.db '
    st, r = ctx.attempt(asm.assemble, head + q + u)
    ctx.require(st == 'err', 'an unterminated quotation is accepted')
    if r == 'UnterminatedLiteral':
        ctx.require(ctx.message().endswith('at line %d' % (1 + count(ctx, head))), 'a refusal names the wrong place')
    else:
        ctx.fail('an unterminated quotation is refused for another reason', detail=repr(r))


def included(ctx, bad, n, depth, where):
    """statements of an included file are named by their line in that file, those behind it by their own"""
    t = ctx.chars('t', n, '\n ;')
    u = ctx.chars('u', n, '\n ;')
    text, tokens = BAD[bad]
    ctx.file('inner.inc', t + '\nnop\n' + (text if where == 'inner' else 'nop') + '\n')
    ctx.file('middle.inc', 'nop\n\n.include "inner.inc"\n')
    head = 'here: nop\n' + u + '\n.include "%s"\n' % ('inner.inc' if depth == 1 else 'middle.inc')
    asm = Cpu()
    st, r = ctx.attempt(asm.assemble, head + (text if where == 'outer' else 'nop') + '\n', 'main.S')
    ctx.require(st == 'err', 'a malformed statement is accepted')
    if where == 'inner':
        want = 'at line %d of inner.inc: ' % (3 + count(ctx, t) + count(ctx, text))
    else:
        want = 'at line %d of main.S: ' % (1 + count(ctx, head) + count(ctx, text))
    m = ctx.message()
    ctx.require(m.endswith(want + str(tokens)), 'a refusal names the wrong place', detail=repr((m, want)))


def in_macro(ctx, n, invocation):
    """a statement of a macro is named by its line in the macro, a malformed invocation of nothing by its own"""
    t = ctx.chars('t', n, '\n ;')
    u = ctx.chars('u', n, '\n ;')
    v, vv = declit(ctx, 'v', 3)
    head = t + '\n.macro put x\nnop\n'
    tail = '\n.endmacro\n' + u + '\nnop\n' + ('put %s\n' % v if invocation else 'load %s\n' % v)
    asm = Cpu()
    st, r = ctx.attempt(asm.assemble, head + 'load x' + tail)
    if vv < 256:
        ctx.require(st == 'ok', 'refused', detail=repr(r))
        return
    ctx.require(st == 'err', 'a value out of range is accepted')
    at = 1 + count(ctx, head) if invocation else count(ctx, head + tail)
    want = 'at line %d: ' % at + str(['load', v])
    m = ctx.message()
    ctx.require(m.endswith(want), 'a refusal names the wrong place', detail=repr((m, want)))


def later(ctx, k, bad, n):
    """several sources: the line counts from the start of each"""
    t = ctx.chars('t', n, '\n ;')
    text, tokens = BAD[bad]
    asm = Cpu()
    st, r = ctx.attempt(asm.assemble, 'here: nop\n' * 1 + 'nop\n' * k, 'first.S')
    ctx.require(st == 'ok', 'refused', detail=repr(r))
    st, r = ctx.attempt(asm.assemble, t + '\n' + text, 'second.S')
    ctx.require(st == 'err', 'a malformed statement is accepted')
    m = ctx.message()
    want = 'at line %d of second.S: ' % (2 + count(ctx, t) + count(ctx, text)) + str(tokens)
    ctx.require(m.endswith(want), 'a refusal names the wrong place', detail=repr((m, want)))


DIRECTIVES = ['.org', '.org x', '.org 1 x', '.org 1 2 3', '.fill', '.fill x', '.fill 1 x', '.fill 1 2 3', '.goto', '.goto x', '.goto 99 x', '.goto 1 2 3',
              '.goto 1', '.upto', '.upto x', '.upto 99 x', '.upto 1 2 3', '.upto 1', '.ram', '.ram x', '.ram 0', '.ram 1 2', '.align', '.align x',
              '.align 1 2', '.repeat', '.repeat x', '.repeat 0', '.repeat 1 2', '.repeat 3\n.repeat 2', '.endrepeat', '.section', '.section a',
              '.section a Q', '.section a R x', '.section a R 1 2', '.section a R\n.section a R', '.export', '.export a b', '.export a\n.export a',
              '.include', '.include a b', '.incbin', '.incbin a b', '.incjson', '.incjson a', '.incjson a b c', '.inccsv_le16', '.inccsv_le16 a b',
              '.define', '.define x', '.define x y z', '.log x', '.log on off', '.log x y', '.align 0', '.macro', '.endmacro', '.macro a\n.macro b']


def directive(ctx, n, k):
    """a directive with malformed operands is named by its line and file"""
    bad = ctx.pick('bad', DIRECTIVES[k:k + 8])
    t = ctx.chars('t', n, '\n ;')
    head = '.fill 0x10\n' + t + '\n'
    asm = Cpu()
    ctx.file('d.S', head + bad + '\n.db 1\n')
    st, r = ctx.attempt(asm.assemble_file, 'd.S')
    ctx.require(st == 'err', 'a malformed directive is accepted')
    *_, last = bad.split('\n')
    want = 'at line %d of d.S: ' % (1 + count(ctx, head) + bad.count('\n')) + str(last.split(' '))
    m = ctx.message()
    ctx.require(m.endswith(want), 'a refusal names the wrong place', detail=repr((m, want)))


def link_name(ctx, how, n, at=0):
    """a reference refused when linking is named by its label, and by its value"""
    name = ctx.chars('n', n, 'abZ_.9')
    ctx.assume(ctx.and_(name[0] != '9', name[0] != '.'))
    asm = Cpu()
    a, av = hexlit(ctx, 'a', 2, ctx.pick('page', ['0x', '0x1', '0x2']))
    av = av + {'0x': 0, '0x1': 256, '0x2': 512}[a[:-2]]
    if how == 'unknown':
        src = 'nop\nother: load other\njump ' + name + '\n'
        st, r = run(ctx, asm, src)
        ctx.require(st == 'err', 'an undefined label is accepted')
        ctx.require(ctx.message() == 'unknown label "' + name + '"', 'a refusal names another label')
        return
    if how in ('even', 'near'):
        t, d = number(ctx, 'd', 1, 10)
        src = 'jump z0\nz0: jump z0\n' + how + ' ' + name+ '\n.org 0x11' + t + '\n' + name + ': nop\n'
        if how == 'near':
            src = '.org 0x100\n' + src
        st, r = run(ctx, asm, src)
        ok = d & 3 == 0
        if st == 'ok':
            ctx.require(ok, 'an unaligned label is accepted')
            return
        m = ctx.message()
        if how == 'near' or m.startswith('wrong'):
            ctx.require(ctx.not_(ok), 'an aligned label is refused', detail=repr(m))
            ctx.require(m == 'wrong alignment for label "' + name + '"', 'a refusal names another label', detail=repr(m))
        return
    if how == 'absolute':
        src = 'load z0\nz0: nop\n.org ' + a + '\n' + name + ': nop\nload ' + name + '\n'
        v = av
        bits = 8
        ok = ctx.and_(v >= 0, v < 256)
    else:
        src = '.org ' + a + '\nskip ' + name + '\n.org %d\n' % at + name + ': nop\n'
        v = at - (av + 2)
        bits = 8
        ok = ctx.and_(v >= -128, v < 128)
    st, r = run(ctx, asm, src)
    if ok:
        ctx.require(st == 'ok', 'refused', detail=repr(r))
        return
    ctx.require(st == 'err', 'a value out of range is accepted')
    m = ctx.message()
    ctx.require(m == 'label "' + name + '" with value %d is not in the %d bit range' % (v, bits), 'a refusal names another label or value',
                detail=repr(m))


# ---------------------------------------------------------------- the log

def hexes(data):
    return '(' + ','.join(['0x{0:02x}'.format(x) for x in data]) + ')'


def statements(ctx, kinds):
    """-> (source line, bytes emitted) of each statement; labels are named after their position"""
    out = []
    pc = 0
    big = False
    for i, k in enumerate(kinds):
        v, vv = hexlit(ctx, 'v%d' % i, 2)
        if k == 'nop':
            out.append(('nop', b'\xA0'))
        elif k == 'load':
            out.append(('load ' + v, bytes([0xB1, vv])))
        elif k == 'db':
            out.append(('.db ' + v + ' 0x7', bytes([vv, 7])))
        elif k == 'label':
            out.append(('lab%d:' % i, b''))
        elif k == 'fill':
            out.append(('.fill 3 ' + v, bytes([vv] * 3)))
        elif k == 'long':
            out.append(('.fill 300 5', bytes([5] * 300)))
        elif k == 'one':
            out.append(('.org 0x103\n.align 4', b'\0'))
        elif k == 'ram':
            out.append(('.ram 0x10', b''))
        elif k == 'define':
            out.append(('.define d%d ' % i + v, b''))
        elif k == 'align':
            out.append(('.org 0x101\n.align 4', b'\0\0\0'))
        elif k == 'macro':
            out.append(('.macro m%d x\nload x\nnop\n.endmacro\nm%d ' % (i, i) + v, bytes([0xB1, vv, 0xA0])))
        elif k == 'ref':
            out.append(('jump far', b'\xB2\0\0'))
    return out


def log(ctx, kinds, on, off, big):
    """with .log on every statement is reported with its bytes and their place, and the output is the same"""
    parts = statements(ctx, kinds)
    tail = '.org 0x4321\nfar: nop\n'
    n = len(parts)
    src = ''
    want = []
    offset = 0
    active = False
    how = ctx.pick('how', ['.log', '.log on', '.LOG ON', '.log On']) if on is not None else ''
    for i, (text, data) in enumerate(parts):
        if i == on:
            src = src + how + '\n'
            want.append(None)
            active = True
        if i == off:
            src = src + '.log off\n'
            active = False
        src = src + text + '\n'
        if active:
            for extra in range(text.count('\n')):
                want.append(None)
            want.append((data, offset))
        offset += len(data)
    if active:
        want += [None, None, (b'\xA0', offset)]
    asm = Big() if big else Cpu()
    (st, r), lines = ctx.printed(lambda: ctx.attempt(asm.assemble, src + tail))
    ctx.require(st == 'ok', 'the log refuses a program', detail=repr(r))
    ctx.require(len(lines) == len(want), 'a statement is not reported, or one too many', detail=repr((lines, want)))
    for l, w in zip(lines, want):
        if w is None:
            ctx.require(l.startswith('not assembled '), 'the log reports bytes nobody emitted', detail=repr(l))
        elif not w[0]:
            ctx.require(l.startswith('not assembled '), 'the log reports bytes nobody emitted', detail=repr(l))
        else:
            ctx.require(l.startswith('assembled '), 'the log does not report an emission', detail=repr(l))
            ctx.require(l.endswith(' -> ' + hexes(w[0]) + ' at 0x{0:x}'.format(w[1])), 'the log reports other bytes or another place',
                        detail=repr((l, w)))
    (st, r), lines = ctx.printed(lambda: ctx.attempt(asm.link))
    ctx.require(st == 'ok', 'the log refuses a program', detail=repr(r))
    plain = Big() if big else Cpu()
    text = ''
    for p in parts:
        text = text + p[0] + '\n'
    st, r = run(ctx, plain, text + tail)
    ctx.require(st == 'ok', 'a program is refused', detail=repr(r))
    ctx.require_bytes(asm.assembled_bytes, plain.assembled_bytes, 'the log changes the output')
    # the references are reported when they are resolved
    refs = []
    offset = 0
    for i, k in enumerate(kinds):
        if k == 'ref':
            refs.append(offset + 1)
        offset += len(parts[i][1])
    ctx.require(len(lines) == (len(refs) if active else 0), 'a reference is not reported, or one too many', detail=repr(lines))
    if active:
        for l, at in zip(lines, refs):
            w = '(0x43,0x21)' if big else '(0x21,0x43)'
            ctx.require(l.startswith('label "far" translated to '), 'the log names another label', detail=repr(l))
            ctx.require('(' not in plain_part(l, w, at), 'the log reports other bytes or another place of a reference', detail=repr((l, at)))


def plain_part(l, w, at):
    """(the two bytes of the opcode field may follow in the same report)"""
    want = 'label "far" translated to ' + w + ' at address ' + hex(at)
    return '' if l == want else '('


def log_refused(ctx, n, more=''):
    """the operand of .log is on, off or missing"""
    t = ctx.chars('t', n, 'oOnNfF1')
    asm = Cpu()
    (st, r), lines = ctx.printed(lambda: ctx.attempt(asm.assemble, '.log ' + t + more + '\nnop\n'))
    u = t.upper()
    if more:
        ctx.require(st == 'err', 'a malformed .log is accepted')
    elif u == 'ON':
        ctx.require(st == 'ok', 'refused', detail=repr(r))
        ctx.require(len(lines) == 2, 'the log is not switched on')
    elif u == 'OFF':
        ctx.require(st == 'ok', 'refused', detail=repr(r))
        ctx.require(len(lines) == 0, 'the log is not switched off')
    else:
        ctx.require(st == 'err', 'a malformed .log is accepted')


def case(fn, **p):
    return {'fn': 'harness.report:' + fn, 'params': p}


def cases(tier):
    deep = tier != 'quick'
    out = []
    for b in sorted(BAD):
        if b == 'negative':
            continue
        for c in sorted(BEFORE):
            for n in (2,) if not deep else (1, 2, 3, 4):
                al = {'plain': ' \n;,\t', 'string': 'a\n; ', 'char': "a\n;:", 'escape': '"\n\\'}.get(c, ' \n;,')
                if c == 'escape':
                    al = '\na"' if n == 1 else '\na'
                out.append(case('line', bad=b, before=c, n=n, alphabet=al, name=''))
        out.append(case('line', bad=b, before='plain', n=2, alphabet='\n ;', name='src.S'))
        for w in ('inner', 'outer'):
            for d in (1, 2):
                out.append(case('included', bad=b, n=1 if not deep else 3, depth=d, where=w))
        for k in (0, 1, 9):
            out.append(case('later', k=k, bad=b, n=1 if not deep else 3))
    for k in range(0, len(DIRECTIVES), 8):
        out.append(case('directive', n=1 if not deep else 2, k=k))
    for q in ('"', "'"):
        for n, m in ((1, 1), (2, 2)) if not deep else ((1, 1), (2, 2), (3, 3), (1, 4)):
            out.append(case('literal_line', q=q, n=n, m=m))
    for i in (False, True):
        out.append(case('in_macro', n=1 if not deep else 3, invocation=i))
    for h in ('unknown', 'absolute', 'relative', 'even', 'near'):
        for n in (1, 2, 3) if not deep else (1, 2, 3, 4, 5, 6):
            for at in (0x100, 0x200, 0x300) if h == 'relative' else (0,):
                out.append(case('link_name', how=h, n=n, at=at))
    return out


def cases_log(tier):
    deep = tier != 'quick'
    kinds = ['nop', 'load', 'db', 'label', 'fill', 'ram', 'define', 'align', 'macro', 'ref']
    pairs = [(a, b) for a in kinds for b in kinds] + [(a, b) for a in ('long', 'one') for b in ('nop', 'ref', 'label', 'long')]
    out = []
    for a, b in pairs:
        for big in (False, True) if 'ref' in (a, b) else (False,):
            out.append(case('log', kinds=[a, b], on=0, off=None, big=big))
            if a != b or deep:
                out.append(case('log', kinds=[a, b, a], on=0, off=2, big=big))
                out.append(case('log', kinds=[a, b], on=1, off=None, big=big))
                out.append(case('log', kinds=[b, a], on=None, off=1, big=big))
    if deep:
        for a in kinds:
            for b in kinds:
                for c in kinds:
                    out.append(case('log', kinds=[a, b, c], on=0, off=None, big=True))
    for n in (1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5):
        out.append(case('log_refused', n=n))
        if n > 1:
            out.append(case('log_refused', n=n, more=' off'))
    return out
