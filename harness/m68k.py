"""The 68000: every instruction with every effective address, operand and refusal."""
from harness.lib import number, hexlit, declit, be, run
from necroassembler.cpu.mc68000 import AssemblerMC68000
from spec import m68k as spec

DREGS = [('d%d' % i, i) for i in range(8)] + [('D%d' % i, i) for i in range(8)]
AREGS = [('a%d' % i, i) for i in range(8)] + [('A%d' % i, i) for i in range(8)]
XREGS = [(n, i) for n, i in DREGS] + [(n, i + 8) for n, i in AREGS]
INDEX = ('', '.w', '.l', '.W', '.L')

# what fits: lowest and highest number, bits, highest label, and labels up to which the statement leaves open
BITS = {'(d,An)': 16, '(d,An,Xn)': 8, '(d,PC)': 16, '(d,PC,Xn)': 8, '(a).w': 16, 'a.w': 16, '(a).l': 32, 'a.l': 32, 'a': 32, 'rel16': 16, 'rel8': 8}
SIGNED = ('(d,An)', '(d,An,Xn)', '(d,PC)', '(d,PC,Xn)', 'rel8', 'rel16')
RELATIVE = ('(d,PC)', '(d,PC,Xn)', 'rel8', 'rel16')


def literal(ctx, name, mode, bits, kind, n):
    """-> text, value, whether it fits, whether the statement leaves it open"""
    if kind == '$':
        t, v = hexlit(ctx, name, n, '$')
        ok = v < 1 << bits
    elif kind == '%':
        t, v = number(ctx, name, n, 2)
        t = '%' + t
        ok = v < 1 << bits
    else:
        t, v = declit(ctx, name, n, kind == '-')
        ok = ctx.and_(v >= -(1 << (bits - 1)), v < (1 << (bits - 1) if mode in SIGNED else 1 << bits))
    open_ = False
    if mode in ('rel8', 'rel16'):
        open_ = v % 2 != 0
        if mode == 'rel8':
            # (a distance of zero means that another word follows)
            ok = ctx.and_(ok, v != 0)
    return t, v, ok, open_


def extension(mode, bits, v, x, long):
    """the words after the opcode"""
    if mode in ('(d,An,Xn)', '(d,PC,Xn)'):
        return bytes([(x << 4 | long << 3) & 0xff, v & 0xff])
    if mode == 'rel8':
        return b''
    if mode == '#' and bits == 8:
        return bytes([0, v & 0xff])
    return be(v, bits // 8)


def write(mode, r, t, xr, xs):
    """the text of an operand"""
    if mode in ('Dn', 'An'):
        return r
    if mode == '(An)':
        return '(' + r + ')'
    if mode == '(An)+':
        return '(' + r + ')+'
    if mode == '-(An)':
        return '-(' + r + ')'
    if mode == '(d,An)':
        return '(' + t + ', ' + r + ')'
    if mode == '(d,An,Xn)':
        return '(' + t + ', ' + r + ', ' + xr + xs + ')'
    if mode in ('(a).w', '(a).l'):
        return '(' + t + ')' + mode[3:]
    if mode in ('a.w', 'a.l'):
        return t + mode[1:]
    if mode == '(d,PC)':
        return '(' + t + ', ' + r + ')'
    if mode == '(d,PC,Xn)':
        return '(' + t + ', ' + r + ', ' + xr + xs + ')'
    if mode == '#':
        return '#' + t
    if mode in ('CCR', 'SR'):
        return r
    return t


def build(ctx, i, mode, size, lit, xs):
    """a symbolic operand: text, fields of the opcode, extension of the value, value, whether it fits, whether it is open"""
    r, xr, x, t, v = '', '', 0, '', 0
    ok, open_ = True, False
    fields = (0, 0)
    bits = 8 * size if mode == '#' else BITS.get(mode, 0)
    if mode == 'Dn':
        r, n = ctx.pickv('r%d' % i, DREGS)
    elif mode in ('An', '(An)', '(An)+', '-(An)', '(d,An)', '(d,An,Xn)'):
        r, n = ctx.pickv('r%d' % i, AREGS)
    elif mode in ('(d,PC)', '(d,PC,Xn)'):
        r = ctx.pick('pc%d' % i, ['pc', 'PC'])
    elif mode in ('CCR', 'SR'):
        r = ctx.pick('cc%d' % i, [mode.lower(), mode])
    if mode in ('(d,An,Xn)', '(d,PC,Xn)'):
        xr, x = ctx.pickv('x%d' % i, XREGS)
    if mode in spec.MODES:
        m, f = spec.MODES[mode]
        fields = (m, n if f is None else f)
    if bits:
        if isinstance(lit, str):
            t = lit
        else:
            t, v, ok, open_ = literal(ctx, 'v%d' % i, mode, bits, lit[0], lit[1])
    return write(mode, r, t, xr, xs), v if mode == 'rel8' else fields, lambda w: extension(mode, bits, w, x, xs[1:].lower() == 'l'), v, ok, open_


def forms(mn):
    return spec.OPS[mn]


def operands(ctx, mn, form, modes, lits, xs):
    kinds, word, size = spec.OPS[mn][form]
    return [build(ctx, i, modes[i], size, lits[i], xs) for i in range(len(modes))]


def value(ctx, mn, form, modes, lits, xs=''):
    """registers and numbers of an instruction: encoded in their places, or refused"""
    asm = AssemblerMC68000()
    ops = operands(ctx, mn, form, modes, lits, xs)
    ok = ctx.and_(*[o[4] for o in ops]) if ops else True
    for o in ops:
        ctx.assume(ctx.not_(o[5]))
    st, r = run(ctx, asm, '.db 1, 1\n' + ctx.pick('case', [mn, mn.upper()]) + ' ' + ', '.join([o[0] for o in ops]) + '\n.db 2')
    if st == 'err':
        ctx.require(ctx.not_(ok), 'an instruction is refused', detail=repr(r))
        return
    ctx.require(ok, 'an operand that does not fit is accepted')
    want = be(spec.OPS[mn][form][1](*[o[1] for o in ops]), 2)
    for o, m in zip(ops, modes):
        if m in spec.VALUED or m == 'rel16':
            want = want + o[2](o[3])
    ctx.require_bytes(asm.assembled_bytes, b'\x01\x01' + want + b'\x02', 'an instruction is encoded wrongly')


def label(ctx, mn, form, modes, which, place, extra, n, xs=''):
    """a label stands for its address, or for the distance to it from the word that holds it"""
    asm = AssemblerMC68000()
    o, ov = hexlit(ctx, 'org', n, '$')
    o2, o2v = hexlit(ctx, 'org2', n, '$')
    ctx.assume(ov % 2 == 0)
    name = 'lab' + extra
    size = spec.OPS[mn][form][2]
    ops = operands(ctx, mn, form, modes, [name if i in which else ['', 1] for i in range(len(modes))], xs)
    for x in ops:
        ctx.assume(x[4])
        ctx.assume(ctx.not_(x[5]))
    line = mn + ' ' + ', '.join([x[0] for x in ops])
    length = 2
    at = []
    for m in modes:
        at.append(length if m != 'rel8' else 2)
        if m in spec.VALUED or m == 'rel16':
            length += 2 if m in ('(d,An,Xn)', '(d,PC,Xn)') or m == '#' and size == 1 else size if m == '#' else BITS[m] // 8
    if place == 'before':
        src = '.org ' + o + '\n.db 1, 1\nlab:\n.db 1, 1\n' + line + '\n.db 3'
        head, pc, v = b'\x01\x01\x01\x01', ov + 4, ov + 2
    elif place == 'gap':
        g, gv = hexlit(ctx, 'gap', min(n, 6), '$')
        src = '.org ' + o + '\n.db 1, 1\n' + line + '\n.ram ' + g + '\nlab:\n.db 3'
        ctx.assume(gv > 0)
        head, pc = b'\x01\x01', ov + 2
        v = pc + length + gv
    elif place == 'next':
        src = '.org ' + o + '\n.db 1, 1\n' + line + '\nlab:\n.db 3'
        head, pc = b'\x01\x01', ov + 2
        v = pc + length
    elif place == 'back':
        g, gv = hexlit(ctx, 'gap', min(n, 6), '$')
        src = '.org ' + o + '\nlab:\n.ram ' + g + '\n' + line + '\n.db 3'
        ctx.assume(ctx.and_(gv > 0, gv % 2 == 0))
        head, pc, v = b'', ov + gv, ov
    else:
        # (nothing follows)
        src = '.org ' + o2 + '\nlab:\n.org ' + o + '\n.db 1, 1\n' + line
        head, pc, v = b'\x01\x01', ov + 2, o2v
    if extra:
        v = v + 4
    ok = True
    vals = []
    for i in range(len(modes)):
        m = modes[i]
        if i not in which:
            vals.append(ops[i][3])
            continue
        w = v
        bits = 8 * size if m == '#' else BITS[m]
        if m in RELATIVE:
            w = v - (pc + at[i])
            fits = ctx.and_(w >= -(1 << (bits - 1)), w < 1 << (bits - 1))
            if m in ('rel8', 'rel16'):
                fits = ctx.and_(fits, v % 2 == 0)
            if m == 'rel8':
                fits = ctx.and_(fits, w != 0)
        else:
            fits = w < 1 << bits
            if m in SIGNED or m in ('(a).w', 'a.w'):
                # (addresses that the processor would take for negative ones)
                ctx.assume(ctx.not_(ctx.and_(fits, w >= 1 << (bits - 1))))
        ok = ctx.and_(ok, fits)
        vals.append(w)
    st, r = run(ctx, asm, src)
    if st == 'err':
        ctx.require(ctx.not_(ok), 'an instruction is refused', detail=repr(r))
        return
    ctx.require(ok, 'a label that does not fit is accepted')
    want = be(spec.OPS[mn][form][1](*[vals[i] if modes[i] == 'rel8' else ops[i][1] for i in range(len(modes))]), 2)
    for x, m, w in zip(ops, modes, vals):
        if m in spec.VALUED or m == 'rel16':
            want = want + x[2](w)
    ctx.require_bytes(asm.assembled_bytes, head + want + (b'' if place == 'other' else b'\x03'), 'a label is encoded wrongly')


FEW = ['d3', 'A4', 'x1']
WORDS = ['d3', 'D6', 'a4', 'A1', 'd8', 'a9', 'pc', 'x1', 'sr', 'b2']


def classify(ctx, r):
    """which kind of register a word is, and its number"""
    if ctx.or_(*[r == n for n, _ in DREGS]):
        v = 0
        for n, k in DREGS:
            v = ctx.ite(r == n, k, v)
        return 'D', v
    if ctx.or_(*[r == n for n, _ in AREGS]):
        v = 0
        for n, k in AREGS:
            v = ctx.ite(r == n, k, v)
        return 'A', v
    if ctx.or_(r == 'pc', r == 'PC'):
        return 'P', 0
    if r == 'sr':
        return 'S', 0
    return None, 0


# shapes of operands: r and s are words
SHAPES = ('r', '(r)', '(r)+', '-(r)', '(4, r)', '(4, r, s)', '(4, r, s.l)', '(4, r, s.W)', '(4).w', '(4).L', '4.w', '4.l', '4', '#4', 'ccr')
MALFORMED = ('+(r)', '-(r)+', '(r)-', '(r', 'r)', '()', '(4, 5)', '(r, 4)', '(r, s)', '(4, r, 5)', '(4, r, s, 5)', '(4, 5, r)', '(#4, r)', '(r).w', '(r).l', 'r.w', '(4, r).w', '#', '#r', '(4).b', '((r))', '((4)).w', 
             '[r]', '(4, r, s.b)', '(4, r.w)', '(4, r.w, s)', '(4).w.w', '#4.w', '(4) w', '--(r)', '(r)++')


def mode_of(ctx, shape, words):
    """the effective address a shape stands for with these words: mode, fields, extension for the value 4; None if it is none"""
    kinds = [classify(ctx, w) for w in words]
    if shape == 'r':
        k, n = kinds[0]
        if k == 'D':
            return 'Dn', (0, n), None
        if k == 'A':
            return 'An', (1, n), None
        if k == 'S':
            return 'SR', (0, 0), None
        return None
    if shape == 'ccr':
        return 'CCR', (0, 0), None
    if shape in ('(r)', '(r)+', '-(r)'):
        k, n = kinds[0]
        if k != 'A':
            return None
        m = shape.replace('r', 'An')
        return m, (spec.MODES[m][0], n), None
    if shape == '(4, r)':
        k, n = kinds[0]
        if k == 'A':
            return '(d,An)', (5, n), b'\x00\x04'
        if k == 'P':
            return '(d,PC)', (7, 2), b'\x00\x04'
        return None
    if shape in ('(4, r, s)', '(4, r, s.l)', '(4, r, s.W)'):
        k, n = kinds[0]
        k2, n2 = kinds[1]
        if k2 not in ('D', 'A') or k not in ('A', 'P'):
            return None
        x = bytes([n2 << 4 | (k2 == 'A') << 7 | ('.l' in shape) << 3, 4])
        if k == 'A':
            return '(d,An,Xn)', (6, n), x
        return '(d,PC,Xn)', (7, 3), x
    if shape in ('(4).w', '4.w'):
        return '(a).w', (7, 0), b'\x00\x04'
    if shape in ('(4).L', '4.l', '4'):
        return '(a).l', (7, 1), b'\x00\x00\x00\x04'
    if shape == '#4':
        return '#', (7, 4), None
    return None


def matrix(ctx, mn, shapes, deep):
    """a combination of operands is accepted exactly when the processor has it, whatever words are in it"""
    asm = AssemblerMC68000()
    texts, eas = [], []
    k = 0
    count = sum([sh.count('r') + sh.count('s') if sh != 'ccr' else 0 for sh in shapes])
    for sh in shapes:
        words = []
        t = ''
        for i in range(len(sh)):
            ch = sh[i]
            if ch in 'rs' and sh != 'ccr':
                w = ctx.pick('w%d' % k, WORDS if count < 2 else WORDS[:1] + FEW + ['pc'] if count < 3 and deep else FEW)
                k += 1
                words.append(w)
                t = t + w
            else:
                t = t + ch
        texts.append(t)
        eas.append((sh, words))
    st, r = run(ctx, asm, mn + ' ' + ', '.join(texts))
    ms = [mode_of(ctx, sh, ws) for sh, ws in eas]
    if None not in ms:
        for kinds, word, size in spec.OPS[mn]:
            if len(kinds) != len(ms):
                continue
            if all([m[0] in ks or ms_rel(m, sh, ks) for m, ks, sh in zip(ms, kinds, shapes)]):
                fields = [4 if 'rel8' in ks else m[1] for m, ks in zip(ms, kinds)]
                want = be(word(*fields), 2)
                for m, ks in zip(ms, kinds):
                    if 'rel16' in ks:
                        want = want + b'\x00\x04'
                    elif m[0] == '#':
                        want = want + be(4, max(size, 2))
                    elif m[2] is not None and 'rel8' not in ks:
                        want = want + m[2]
                ctx.require(st == 'ok', 'an instruction is refused', detail=repr(r))
                ctx.require_bytes(asm.assembled_bytes, want, 'an instruction is encoded wrongly')
                return
        if ms and mn[-2:-1] == '.' and ms[-1][0] in ('CCR', 'SR') and mn[:-2] in ('ori', 'andi', 'eori') and len(ms) == 2 and ms[0][0] == '#':
            # (a size that is not the register's)
            return
    ctx.require(st == 'err', 'an instruction the processor does not have is accepted')


def ms_rel(m, shape, kinds):
    return shape == '4' and ('rel8' in kinds or 'rel16' in kinds)


def unknown(ctx, n):
    """words that are no instruction are refused"""
    asm = AssemblerMC68000()
    m = ctx.chars('m', n, spec.LETTERS)
    st, r = run(ctx, asm, m)
    if n == 3:
        for w, code in (('rts', 0x4e75), ('nop', 0x4e71)):
            if m == w:
                ctx.require(st == 'ok', 'an instruction is refused')
                ctx.require_bytes(asm.assembled_bytes, be(code, 2), 'an instruction is encoded wrongly')
                return
    ctx.require(st == 'err', 'a word that is no instruction is accepted')


def case(fn, **p):
    return {'fn': 'harness.m68k:' + fn, 'params': p}


def literals(mode, size, deep):
    """kinds and lengths of the numbers to try"""
    if mode == '#':
        bits = 8 * size
    elif mode in BITS:
        bits = BITS[mode]
    else:
        return []
    n = {8: 3, 16: 5, 32: 10}[bits]
    h = bits // 4
    if deep:
        return [['', k] for k in range(1, n + 2)] + [['-', k] for k in range(1, n + 2)] + [['$', k] for k in range(1, h + 2)] + [['%', k] for k in (1, 4, 8, bits, bits + 1) if k < 18]
    return [['', n], ['-', n], ['$', h + 1]] + ([['%', 8]] if bits == 8 else [])


def cases(tier):
    deep = tier != 'quick'
    out = []
    for mn in spec.OPS:
        plain = mn in ('move', 'move.b', 'move.l', 'movea.l', 'ori.b', 'andi', 'subi.l', 'addi.w', 'eori.b', 'cmpi.l', 'jmp', 'jsr', 'lea', 'bhi', 'ble.b', 'dbra', 'dbcc.w')
        for f, (kinds, word, size) in enumerate(spec.OPS[mn]):
            if not kinds:
                out.append(case('value', mn=mn, form=f, modes=[], lits=[]))
                continue
            combos = [[m] for m in kinds[0]]
            if len(kinds) > 1:
                combos = [[a, b] for a in kinds[0] for b in kinds[1]]
            for ms in combos:
                first = [m for m in ms if m in ('(d,An,Xn)', '(d,PC,Xn)')]
                ones = [['', 1] for m in ms]
                # every mode with every other
                for xs in (INDEX if deep else ('', '.L', '.w')) if first else ('',):
                    out.append(case('value', mn=mn, form=f, modes=ms, lits=ones, xs=xs))
                for i in range(len(ms)):
                    # all numbers of each mode in turn
                    if len(ms) > 1 and not deep and ms[1 - i] not in ('Dn', 'An', '#', 'CCR', 'SR', 'a'):
                        continue
                    if len(ms) > 1 and not deep and i == 1 and ms[0] not in ('#', 'Dn'):
                        continue
                    ls = literals(ms[i], size, deep)
                    if not deep and not plain:
                        ls = ls[:1]
                    for l in ls:
                        out.append(case('value', mn=mn, form=f, modes=ms, lits=[l if j == i else ['', 1] for j in range(len(ms))], xs=''))
                # labels
                lab = [i for i in range(len(ms)) if ms[i] in BITS or ms[i] == '#']
                sets = [[i] for i in lab] + ([lab] if len(lab) > 1 else [])
                for wh in sets:
                    rel = any(ms[i] in RELATIVE for i in wh)
                    for place in ('other', 'before', 'gap', 'back', 'next'):
                        if not deep:
                            if place in ('before', 'next') and not rel:
                                continue
                            if place in ('gap', 'back') and not (rel and plain):
                                continue
                            if not plain and (place != 'other' or len(wh) > 1):
                                continue
                            if len(ms) > 1 and len(wh) < 2 and ms[1 - wh[0]] not in ('Dn', 'An', '#', '(d,An)', 'a.w', 'CCR', 'SR'):
                                continue
                        for extra in ('', '+4') if place == 'other' and (deep or plain and len(ms) == 1) else ('',):
                            out.append(case('label', mn=mn, form=f, modes=ms, which=wh, place=place, extra=extra, n=8, xs=''))
    few = ('r', '4', '#4')
    for mn in spec.OPS:
        two = deep or mn in ('move', 'move.b', 'ori', 'cmpi.l', 'lea', 'dbra', 'jmp', 'bne.b')
        for a in SHAPES:
            out.append(case('matrix', mn=mn, shapes=[a], deep=two))
        for a in SHAPES:
            for b in SHAPES:
                if two and not ('.W' in a + b or '.l)' in a + b) or deep or a in few and b in few:
                    out.append(case('matrix', mn=mn, shapes=[a, b], deep=two))
        out.append(case('matrix', mn=mn, shapes=[], deep=two))
        if two or deep:
            for a in MALFORMED:
                out.append(case('matrix', mn=mn, shapes=[a], deep=True))
                for b in ('r', '(r)', '#4') if deep else ('#4', 'r'):
                    out.append(case('matrix', mn=mn, shapes=[a, b], deep=two))
                    out.append(case('matrix', mn=mn, shapes=[b, a], deep=two))
            for a in SHAPES:
                if deep or '(4, r' not in a:
                    for b in few if deep else ('r', '#4'):
                        out.append(case('matrix', mn=mn, shapes=[b, a, 'r'], deep=two))
                        out.append(case('matrix', mn=mn, shapes=['#4', b, a], deep=two))
    for n in (1, 2, 3) + ((4,) if deep else ()):
        out.append(case('unknown', n=n))
    return out
