"""The 8086: every instruction, operand and refusal."""
from harness.lib import number, hexlit, declit, le, run
from necroassembler.cpu.intel8086 import AssemblerIntel8086
from spec import i8086 as spec


def both(names):
    return [(n, i) for i, n in enumerate(names)] + [(n.lower(), i) for i, n in enumerate(names)]


R8, R16, SEG = both(spec.R8), both(spec.R16), both(spec.SEG)
MEM2 = [(n, k) for n, k in spec.MEM.items() if len(n) == 2]
MEM7 = [(n, k) for n, k in spec.MEM.items() if len(n) == 7]
MEM2 += [(n.lower(), k) for n, k in MEM2]
MEM7 += [(n.lower(), k) for n, k in MEM7]
BITS = {'i8': 8, 'i16': 16, 'e8': 8, 'e16': 16, 'd': 16, 'm2+': 16, 'm7+': 16, 'm2-': 16, 'm7-': 16}
# how a memory operand may look: one register or two, without or with a displacement
MS = ('m2', 'm7', 'm2+', 'm7+', 'm2-', 'm7-')


def literal(ctx, name, kind, how, n):
    """-> text, value, whether it fits, whether the statement leaves it open"""
    bits = BITS[kind]
    if how == '0x':
        t, v = hexlit(ctx, name, n)
        # (hexadecimal displacements above 0x7fff: a matter of taste)
        return t, v, v < 1 << bits, ctx.and_(kind[0] == 'm', v >= 1 << (bits - 1))
    t, v = declit(ctx, name, n, how == '-')
    lo, hi = -(1 << (bits - 1)), 1 << bits
    if kind[0] in 'em':
        hi = 1 << (bits - 1)
    if kind[-1] == '-':
        return t, -v, ctx.and_(-v >= lo, -v < hi), False
    return t, v, ctx.and_(v >= lo, v < hi), False


def operand(ctx, i, kind, lit):
    """a symbolic operand: text, register number or r/m, mod, value, whether it fits, whether it is open"""
    if kind in ('r8', 'r16', 'seg'):
        t, n = ctx.pickv('r%d' % i, {'r8': R8, 'r16': R16, 'seg': SEG}[kind])
        return t, n, 3, None, True, False
    if kind in BITS:
        if isinstance(lit, str):
            t, v, ok, open_ = lit, None, True, False
        else:
            t, v, ok, open_ = literal(ctx, 'v%d' % i, kind, lit[0], lit[1])
    if kind[0] == 'm':
        base, rm = ctx.pickv('b%d' % i, MEM2 if kind[1] == '2' else MEM7)
        if kind[2:]:
            return '[' + base + ' ' + kind[2] + ' ' + t + ']', rm, 2, v, ok, open_
        return '[' + base + ']', rm, ctx.ite(rm == 6, 2, 0), None, True, False
    if kind == 'd':
        return '[' + t + ']', 6, 0, v, ok, open_
    if kind in BITS:
        return t, 0, 0, v, ok, open_
    if kind in ('1', '3'):
        return kind, 0, 0, None, True, False
    t = ctx.pick('f%d' % i, [kind, kind.lower()])
    return t, 0, 0, None, True, False


def encode(ctx, form, kinds, ops, vals):
    """the bytes of an instruction"""
    _, opcode, plus, modrm = form
    if plus is not None:
        opcode = opcode + ops[plus][1]
    out = bytes([opcode])
    if modrm is not None:
        reg, rm = modrm
        reg = int(reg[1]) if isinstance(reg, str) else ops[reg][1]
        out = out + bytes([ops[rm][2] << 6 | reg << 3 | ops[rm][1]])
        if kinds[rm] == 'm2' and ops[rm][1] == 6:
            out = out + b'\x00\x00'
    for pass_ in (0, 1):
        for k, v in zip(kinds, vals):
            if k in BITS and (k[0] in 'md') == (pass_ == 0):
                out = out + le(v, BITS[k] // 8)
    return out


def value(ctx, mn, form, kinds, lits):
    """registers and numbers of an instruction: encoded in their places, or refused"""
    asm = AssemblerIntel8086()
    ops = [operand(ctx, i, kinds[i], lits[i]) for i in range(len(kinds))]
    ok = ctx.and_(*[o[4] for o in ops]) if ops else True
    for o in ops:
        ctx.assume(ctx.not_(o[5]))
    vals = [o[3] for o in ops]
    texts = [o[0] for o in ops]
    f = spec.OPS[mn][form]
    if kinds == ['seg', 'r16'] or kinds[:1] == ['seg'] and kinds[1][0] == 'm':
        # (what loading CS does is another matter)
        ctx.assume(ops[0][1] != 1)
    special = mn == 'INT' and kinds == ['i8']
    st, r = run(ctx, asm, '.db 1\n' + ctx.pick('case', [mn, mn.lower()]) + ' ' + ', '.join(texts) + '\n.db 2')
    if st == 'err':
        ctx.require(ctx.not_(ok), 'an instruction is refused', detail=repr(r))
        return
    ctx.require(ok, 'an operand that does not fit is accepted')
    if special and vals[0] == 3:
        # (two ways to write it)
        ctx.require(ctx.or_(ctx.bytes_eq(asm.assembled_bytes, b'\x01\xcc\x02'), ctx.bytes_eq(asm.assembled_bytes, b'\x01\xcd\x03\x02')), 'an instruction is encoded wrongly')
        return
    known = None
    if mn in ('AAM', 'AAD') and vals[0] == 10:
        known = ('i8086-aam', ctx.bytes_eq(asm.assembled_bytes, b'\x01' + bytes([f[1]]) + b'\x02'))
    ctx.require_bytes(asm.assembled_bytes, b'\x01' + encode(ctx, f, kinds, ops, vals) + b'\x02', 'an instruction is encoded wrongly', known=known)


def label(ctx, mn, form, kinds, which, place, extra, n):
    """a label stands for its address, or for the distance to it from the next instruction"""
    asm = AssemblerIntel8086()
    f = spec.OPS[mn][form]
    o, ov = hexlit(ctx, 'org', n)
    o2, o2v = hexlit(ctx, 'org2', n)
    ops = [operand(ctx, i, kinds[i], 'lab' + extra if i in which else ['', 1]) for i in range(len(kinds))]
    for x in ops:
        ctx.assume(x[4])
        ctx.assume(ctx.not_(x[5]))
    if kinds[:1] == ['seg']:
        ctx.assume(ops[0][1] != 1)
    line = mn + ' ' + ', '.join([x[0] for x in ops])
    size = 1 + (f[3] is not None) + sum([BITS.get(k, 0) // 8 for k in kinds])
    if 'm2' in kinds and ops[kinds.index('m2')][1] == 6:
        size += 2
    if place == 'before':
        src = '.org ' + o + '\n.db 1\nlab:\n.db 1\n' + line + '\n.db 3'
        head, pc, v = b'\x01\x01', ov + 2, ov + 1
    elif place == 'gap':
        g, gv = hexlit(ctx, 'gap', min(n, 5))
        src = '.org ' + o + '\n.db 1\n' + line + '\n.ram ' + g + '\nlab:\n.db 3'
        ctx.assume(gv > 0)
        head, pc = b'\x01', ov + 1
        v = pc + size + gv
    elif place == 'back':
        g, gv = hexlit(ctx, 'gap', min(n, 5))
        src = '.org ' + o + '\nlab:\n.ram ' + g + '\n' + line + '\n.db 3'
        ctx.assume(gv > 0)
        head, pc, v = b'', ov + gv, ov
    else:
        # (nothing follows)
        src = '.org ' + o2 + '\nlab:\n.org ' + o + '\n.db 1\n' + line
        head, pc, v = b'\x01', ov + 1, o2v
    if extra:
        v = v + 4
    ok = True
    vals = []
    for i in range(len(kinds)):
        k = kinds[i]
        if i not in which:
            vals.append(ops[i][3])
            continue
        w = v
        if k[0] == 'e':
            w = v - (pc + size)
            ok = ctx.and_(ok, w >= -(1 << (BITS[k] - 1)), w < 1 << (BITS[k] - 1))
        else:
            ok = ctx.and_(ok, w < 1 << BITS[k])
        vals.append(w)
    st, r = run(ctx, asm, src)
    if st == 'err':
        ctx.require(ctx.not_(ok), 'an instruction is refused', detail=repr(r))
        return
    ctx.require(ok, 'a label that does not fit is accepted')
    ctx.require_bytes(asm.assembled_bytes, head + encode(ctx, f, kinds, ops, vals) + (b'' if place == 'other' else b'\x03'), 'a label is encoded wrongly')


WORDS = ['AL', 'dh', 'AX', 'dx', 'BX', 'bp', 'SI', 'di', 'CS', 'es', 'cl', 'xx']
FEW = ['AL', 'AX', 'si', 'DS', 'xx']


def find(ctx, w, table):
    """whether a word is in a table, and its number there"""
    if ctx.or_(*[w == n for n, _ in table]):
        v = 0
        for n, k in table:
            v = ctx.ite(w == n, k, v)
        return v
    return None


# w: a word
SHAPES = ('w', '[w]', '[w + w]', '[w + 4]', '[w - 4]', '[w + w + 4]', '4', '[4]', '1', '3')
MALFORMED = ('[w', 'w]', '[]', '[w w]', '[w - w]', '[w * 4]', '[w + w + w]', '[w + w + 4 + 4]', '[w + 4 + w]', '[4 + w]', '[[w]]', '[w + ]', '[ + w]', '[4 4]', '(w)', '[w +]', '#4', 'w + 4')


def op_of(ctx, shape, words):
    """what an operand is with these words: class, number, mod, value; None if it is none"""
    if shape == 'w':
        for c, t in (('r8', R8), ('r16', R16), ('seg', SEG)):
            n = find(ctx, words[0], t)
            if n is not None:
                return c, n, 3, None
        return None
    if shape in ('[w]', '[w + 4]', '[w - 4]'):
        n = find(ctx, words[0], MEM2)
        if n is None:
            return None
        if shape == '[w]':
            if n == 6:
                return 'm', 6, 2, 0
            return 'm', n, 0, None
        return 'm', n, 2, 4 if '+' in shape else -4
    if shape in ('[w + w]', '[w + w + 4]'):
        n = find(ctx, (words[0] + ' + ' + words[1]).upper(), MEM7)
        if n is None:
            return None
        return 'm', n, 0 if shape == '[w + w]' else 2, None if shape == '[w + w]' else 4
    if shape == '[4]':
        return 'd', 6, 0, 4
    if shape in ('4', '1', '3'):
        return 'i', 0, 0, int(shape)
    return None


def fits(ctx, kind, o, shape):
    """whether an operand is of a kind"""
    if kind in ('r8', 'r16', 'seg'):
        return o[0] == kind
    if kind in ('m', 'd'):
        return o[0] == kind
    if kind in ('1', '3'):
        return shape == kind
    if kind in BITS:
        return o[0] == 'i'
    for c, t in (('r8', spec.R8), ('r16', spec.R16), ('seg', spec.SEG)):
        if kind in t:
            if o[0] != c:
                return False
            if o[1] == t.index(kind):
                return True
            return False
    return False


def matrix(ctx, mn, shapes, deep):
    """a combination of operands is accepted exactly when the processor has it, whatever words are in it"""
    asm = AssemblerIntel8086()
    texts, eas = [], []
    count = sum([sh.count('w') for sh in shapes])
    k = 0
    for sh in shapes:
        words, t = [], ''
        for ch in sh:
            if ch == 'w':
                w = ctx.pick('w%d' % k, WORDS if count < 2 or deep and count < 3 else FEW)
                k += 1
                words.append(w)
                t = t + w
            else:
                t = t + ch
        texts.append(t)
        eas.append((sh, words))
    st, r = run(ctx, asm, mn.lower() + ' ' + ', '.join(texts))
    ops = [op_of(ctx, sh, ws) for sh, ws in eas]
    if None not in ops:
        for form in spec.OPS[mn]:
            kinds = form[0]
            if len(kinds) != len(ops) or not all([fits(ctx, k, o, sh) for k, o, sh in zip(kinds, ops, shapes)]):
                continue
            if kinds[:1] == ('seg',) and ops[0][1] == 1:
                return
            ctx.require(st == 'ok', 'an instruction is refused', detail=repr(r))
            _, opcode, plus, modrm = form
            if plus is not None:
                opcode = opcode + ops[plus][1]
            want = bytes([opcode])
            if modrm is not None:
                reg, rm = modrm
                reg = int(reg[1]) if isinstance(reg, str) else ops[reg][1]
                want = want + bytes([ops[rm][2] << 6 | reg << 3 | ops[rm][1]])
            for o in ops:
                if o[0] in 'md' and o[3] is not None:
                    want = want + le(o[3], 2)
            for kd, o in zip(kinds, ops):
                if kd in BITS and kd != 'd':
                    want = want + le(o[3], BITS[kd] // 8)
            ctx.require_bytes(asm.assembled_bytes, want, 'an instruction is encoded wrongly')
            return
        if mn in ('AAM', 'AAD') and not ops:
            ctx.require(st == 'ok', 'an instruction is refused')
            op = 0xd4 if mn == 'AAM' else 0xd5
            ctx.require_bytes(asm.assembled_bytes, bytes([op, 10]), 'an instruction is encoded wrongly', known=('i8086-aam', ctx.bytes_eq(asm.assembled_bytes, bytes([op]))))
            return
        if ' '.join([o[0] for o in ops]) in spec.MORE.get(mn, ()):
            # (instructions of the processor that the assembler does not have)
            return
    ctx.require(st == 'err', 'an instruction the processor does not have is accepted')


def unknown(ctx, n):
    """words that are no instruction are refused"""
    asm = AssemblerIntel8086()
    m = ctx.chars('m', n, spec.LETTERS)
    st, r = run(ctx, asm, m)
    for w, forms in spec.OPS.items():
        if len(w) == n and forms[-1][0] == () or w in ('AAM', 'AAD') and n == 3 or w == 'RET' and n == 3:
            if m.upper() == w:
                ctx.require(st == 'ok', 'an instruction is refused')
                return
    ctx.require(st == 'err', 'a word that is no instruction is accepted')


def case(fn, **p):
    return {'fn': 'harness.i8086:' + fn, 'params': p}


def literals(kind, deep):
    bits = BITS[kind]
    n = {8: 3, 16: 5}[bits]
    hows = ('',) if kind[-1] == '-' else ('', '0x') if kind[0] == 'm' else ('', '-', '0x')
    if deep:
        return [[h, k] for h in hows for k in range(1, n + 2)]
    return [[h, n] for h in hows]


def cases(tier):
    deep = tier != 'quick'
    out = []
    for mn in spec.OPS:
        plain = mn in ('ADD', 'CMP', 'MOV', 'TEST', 'LEA', 'LES', 'POP', 'JB', 'JG', 'LOOP', 'CALL', 'JMP', 'RET', 'INT', 'IN', 'OUT', 'MUL', 'SHL', 'AAM', 'AAD', 'JCXZ')
        for f, (kinds, opcode, plus, modrm) in enumerate(spec.OPS[mn]):
            combos = [[]]
            for k in kinds:
                combos = [c + [x] for c in combos for x in (MS if k == 'm' else (k,))]
            for c in combos:
                ones = [['', 1] for _ in c]
                if not any(k in BITS for k in c) or deep:
                    out.append(case('value', mn=mn, form=f, kinds=c, lits=ones))
                for i, k in enumerate(c):
                    if k not in BITS:
                        continue
                    for l in literals(k, deep):
                        if deep or plain or l[0] == '':
                            out.append(case('value', mn=mn, form=f, kinds=c, lits=[l if j == i else ['', 1] for j in range(len(c))]))
                # (labels in AAM and AAD: a matter of taste)
                lab = [i for i, k in enumerate(c) if k in BITS and k[-1] != '-' and mn not in ('AAM', 'AAD')]
                for wh in [[i] for i in lab] + ([lab] if len(lab) > 1 else []):
                    rel = any(c[i][0] == 'e' for i in wh)
                    for place in ('other', 'before', 'gap', 'back'):
                        if not deep and (place != 'other') and not (rel and plain):
                            continue
                        for extra in ('', '+4') if place == 'other' and (deep or plain and len(c) == 1) else ('',):
                            out.append(case('label', mn=mn, form=f, kinds=c, which=wh, place=place, extra=extra, n=5))
        two = deep or mn in ('ADD', 'MOV', 'TEST', 'LEA', 'LES', 'POP', 'SHL', 'JMP', 'IN', 'OUT')
        out.append(case('matrix', mn=mn, shapes=[], deep=two))
        for a in SHAPES:
            out.append(case('matrix', mn=mn, shapes=[a], deep=two))
            for b in SHAPES:
                if two or a in ('w', '[w]', '4') and b in ('w', '4', '[4]'):
                    out.append(case('matrix', mn=mn, shapes=[a, b], deep=deep or mn == 'MOV'))
        if two:
            for a in MALFORMED:
                out.append(case('matrix', mn=mn, shapes=[a], deep=deep))
                for b in ('w', '4'):
                    out.append(case('matrix', mn=mn, shapes=[a, b], deep=deep))
                    out.append(case('matrix', mn=mn, shapes=[b, a], deep=deep))
            for a in SHAPES:
                for b in ('w', '4'):
                    for c in ('w', '1', '[4]'):
                        out.append(case('matrix', mn=mn, shapes=[a, b, c], deep=deep))
                        if deep:
                            out.append(case('matrix', mn=mn, shapes=[b, a, c], deep=deep))
    for n in (1, 2, 3) + ((4,) if deep else ()):
        out.append(case('unknown', n=n))
    return out
