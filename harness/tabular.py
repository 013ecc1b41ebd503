"""Processors described by a table of texts (Z80, LR35902): every instruction, operand and refusal."""
import re
from necroassembler.cpu.z80 import AssemblerZ80
from necroassembler.cpu.lr35902 import AssemblerLR35902
from spec import z80, lr35902
from harness.lib import number, hexlit, declit, le, run

ISAS = {'z80': (AssemblerZ80, z80), 'lr35902': (AssemblerLR35902, lr35902)}
FIELDS = ('n', 'nn', 'e', 'd', 's')


def parts(text):
    """mnemonic, pieces of the operands (lower case pieces are fields)"""
    m, _, a = text.partition(' ')
    return m, [p for p in re.split(r"([,()+])", a) if p]


def fields(text):
    return [p for p in parts(text)[1] if p in FIELDS]


def write(ctx, isa, text, values, name='case'):
    """the text of an instruction with the given operand texts, in either case and bracket style"""
    m, ps = parts(text)
    lower = ctx.bool(name)
    br = ctx.choice('br', ISAS[isa][1].BRACKETS) if '(' in text and len(ISAS[isa][1].BRACKETS) > 1 else '()'
    out = (m.lower() if lower else m) + ' '
    values = list(values)
    for p in ps:
        if p in FIELDS:
            v = values.pop(0)
            # IX+d may be written IX-5
            if p in 'ds' and v[0] == '-' and out[-1] == '+':
                out = out[:-1]
            out = out + v
        elif p in '()':
            out = out + br['()'.index(p)]
        elif p[0] == '$':
            out = out + p
        else:
            out = out + (p.lower() if lower else p)
    return out


def encode(code, vals):
    """bytes of an instruction with the operand values"""
    out = []
    vals = list(vals)
    for c in code:
        if isinstance(c, int):
            out.append(c)
        elif c == 'h':
            out.append((vals.pop(0) >> 8) & 0xff)
        elif c == 'l':
            out.append(vals[0] & 0xff)
        else:
            out.append(vals.pop(0) & 0xff)
    return bytes(out)


def check(ctx, asm, isa, text, want, msg, head=b'', tail=b''):
    got = asm.assembled_bytes
    eq = ISAS[isa][1].EQUIVALENT.get(text, 0)
    if eq and len(got) == len(head) + len(want) + len(tail):
        k = len(head) + len(want) - 1
        got = bytes(got[:k]) + bytes([got[k] | eq]) + bytes(got[k + 1:])
        want = want[:-1] + bytes([want[-1] | eq])
    ctx.require_bytes(got, head + want + tail, msg)


def literal(ctx, name, field, kind, n):
    """-> text, value, whether it fits, whether the statement leaves it open"""
    if kind == '$':
        t, v = hexlit(ctx, name, n, '$')
        fits = v < (65536 if field == 'nn' else 256)
        # (displacements above 127 in hexadecimal: a matter of taste)
        return t, v, fits, ctx.and_(field in ('d', 's', 'e'), v > 127, v < 256)
    if kind == '%':
        t, v = number(ctx, name, n, 2)
        return '%' + t, v, v < (65536 if field == 'nn' else 256), ctx.and_(field in ('d', 's', 'e'), v > 127, v < 256)
    t, v = declit(ctx, name, n, kind == '-')
    if field == 'nn':
        return t, v, ctx.and_(v < 65536, v >= -32768), False
    if field == 'n':
        return t, v, ctx.and_(v < 256, v >= -128), False
    return t, v, ctx.and_(v < 128, v >= -128), False


def value(ctx, isa, text, kinds):
    """the operand values fit and are encoded in place, or the instruction is refused"""
    cls, spec = ISAS[isa]
    asm = cls()
    fs = fields(text)
    ts, vs, ok, vague = [], [], True, False
    for i in range(len(fs)):
        kind, n = kinds[i]
        t, v, fits, open_ = literal(ctx, 'v%d' % i, fs[i], kind, n)
        ts.append(t)
        vs.append(v)
        ok = ctx.and_(ok, fits)
        vague = ctx.or_(vague, open_)
    ctx.assume(ctx.not_(vague))
    code = spec.OPS[text]
    st, r = run(ctx, asm, '.db 1\n' + write(ctx, isa, text, ts) + '\n.db 2')
    if st == 'err':
        ctx.require(ctx.not_(ok), 'an instruction is refused', detail=repr(r), known=('z80-ex-af', text == "EX AF,AF'"))
        return
    ctx.require(ok, 'an operand that does not fit is accepted')
    check(ctx, asm, isa, text, encode(code, vs), 'an instruction is encoded wrongly', b'\x01', b'\x02')


def label(ctx, isa, text, which, place, extra, n):
    """a label as operand stands for its address, or for the distance to it"""
    cls, spec = ISAS[isa]
    asm = cls()
    fs = fields(text)
    o, ov = hexlit(ctx, 'org', n, '$')
    o2, o2v = hexlit(ctx, 'org2', n, '$')
    ts, vs, ok = [], [], True
    for i in range(len(fs)):
        if i == which:
            ts.append({'': 'lab', '+': 'lab+3', '<': '<lab', '>': '>lab'}[extra])
            vs.append(None)
        else:
            t, v, fits, _ = literal(ctx, 'v%d' % i, fs[i], '', 2)
            ts.append(t)
            vs.append(v)
    code = spec.OPS[text]
    line = write(ctx, isa, text, ts)
    if place == 'before':
        src = '.org ' + o + '\n.db 1\nlab:\n.db 2\n' + line + '\n.db 3'
        head, tail = b'\x01\x02', b'\x03'
        pc = ov + 2
        v = ov + 1
    elif place == 'after':
        src = '.org ' + o + '\n.db 1\n' + line + '\n.db 2\nlab:\n.db 3'
        head, tail = b'\x01', b'\x02\x03'
        pc = ov + 1
        v = pc + len(code) + 1
    elif place == 'gap':
        g, gv = declit(ctx, 'gap', 3)
        ctx.assume(gv > 0)
        src = '.org ' + o + '\n.db 1\n' + line + '\n.ram ' + g + '\nlab:\n.db 3'
        head, tail = b'\x01', b'\x03'
        pc = ov + 1
        v = pc + len(code) + gv
    elif place == 'back':
        g, gv = declit(ctx, 'gap', 3)
        ctx.assume(gv > 0)
        src = '.org ' + o + '\nlab:\n.ram ' + g + '\n' + line + '\n.db 3'
        head, tail = b'', b'\x03'
        pc = ov + gv
        v = ov
    else:
        # (nothing follows)
        src = '.org ' + o2 + '\nlab:\n.org ' + o + '\n.db 1\n' + line
        head, tail = b'\x01', b''
        pc = ov + 1
        v = o2v
    f = fs[which]
    if f == 'e':
        v = v - (pc + len(code))
    if extra == '+':
        v = v + 3
    elif extra == '<':
        v = v & 0xff
    elif extra == '>':
        v = v >> 8
    if f == 'e':
        ok = ctx.and_(v >= -128, v < 128)
    elif f == 'nn':
        ok = v < 65536
    else:
        ok = v < 256
        if f == 'd':
            # an address of 128 to 255 as a displacement: left open
            ctx.assume(ctx.or_(v < 128, v > 255))
    st, r = run(ctx, asm, src)
    if st == 'err':
        ctx.require(ctx.not_(ok), 'an instruction is refused', detail=repr(r))
        return
    ctx.require(ok, 'a label that does not fit is accepted')
    vs[which] = v
    check(ctx, asm, isa, text, encode(code, vs), 'a label is encoded wrongly', head, tail)


SHAPES = ('', 'r', '(r)', 'v', '(v)', '(i)', 'r,r', 'r,(r)', '(r),r', '(r),(r)', 'r,v', 'v,r', 'r,(v)', '(v),r', 'v,v', 'v,(v)', '(v),v', '(r),v', 'v,(r)',
          'r,(i)', '(i),r', 'v,(i)', '(i),v', '(i),(i)', 'i,r', 'r,i', 'r,r,r', 'r,r,v', 'r,(r),r', '(r),r,r', 'v,r,r', 'v,(r),r', 'r,(v),v', '(v),r,v',
          'r,(i),v', '(i),r,r', 'v,(i),r', '(i),v,v', 'r,v,v', 'v,v,v', '(r', 'r)', '()', '((r))', 'r,(r', '(v', 'r,(v', 'r,()', '(),r', '(r,r)', 'r r (r)')


def matrix(ctx, isa, mn, shape, value):
    """an operand combination is accepted exactly when the processor has it, whatever registers are named"""
    cls, spec = ISAS[isa]
    asm = cls()
    rs = []
    text = ''
    for ch in shape:
        if ch == 'r':
            r = ctx.pick('r%d' % len(rs), spec.BARE)
            rs.append(r)
            text = text + r
        elif ch == 'v':
            text = text + value
        elif ch == 'i':
            text = text + 'IX+' + value
        else:
            text = text + ch
    st, r = run(ctx, asm, '.db 1\n' + mn + ' ' + text + '\n.db 2')
    found = False
    for table, must in ((spec.OPS, True), (spec.ALIASES, False)):
        for t in table:
            m, ps = parts(t)
            if m != mn:
                continue
            got = match(ctx, ''.join(ps), shape, rs, value)
            if got is None:
                continue
            if got:
                found = True
                if st == 'ok':
                    check(ctx, asm, isa, t, encode(table[t], [int(value)] * 3), 'an instruction is encoded wrongly', b'\x01', b'\x02')
                else:
                    ctx.require(not must, 'an instruction is refused', detail=repr(r))
                return
    ctx.require(st == 'err', 'an instruction the processor does not have is accepted')


def match(ctx, spec, shape, rs, value):
    """whether a spec operand text is this shape with these registers (None when it cannot be)"""
    conds = []
    k = 0
    i = 0
    for ch in shape:
        if ch == 'r':
            j = i
            while j < len(spec) and spec[j] not in ',()':
                j += 1
            w = spec[i:j]
            if w in FIELDS or not w:
                return None
            conds.append((rs[k], w))
            k += 1
            i = j
        elif ch in 'vi':
            if ch == 'i':
                if spec[i:i + 3] != 'IX+':
                    return None
                i += 3
            j = i
            while j < len(spec) and spec[j] not in ',()':
                j += 1
            if spec[i:j] not in FIELDS and spec[i:j] != value:
                return None
            i = j
        else:
            if i >= len(spec) or spec[i] != ch:
                return None
            i += 1
    if i != len(spec):
        return None
    for a, w in conds:
        if not (a == w):
            return False
    return True


def unknown(ctx, isa, n):
    """words that are no instruction are refused"""
    cls, spec = ISAS[isa]
    asm = cls()
    m = ctx.chars('m', n, 'ABCDEHIJLNOPRSTXZ')
    st, r = run(ctx, asm, m)
    for w in spec.MNEMONICS:
        if len(w) == n and m == w:
            ctx.require(ctx.or_(st == 'ok') if w in spec.OPS else st == 'err', 'an instruction without operands is wrong')
            return
    ctx.require(ctx.or_(st == 'err', m == 'BRA'), 'a word that is no instruction is accepted')


def case(fn, **p):
    return {'fn': 'harness.tabular:' + fn, 'params': p}


def cases(isa, tier):
    deep = tier != 'quick'
    spec = ISAS[isa][1]
    out = []
    kinds = {'n': (('$', 3), ('', 3), ('-', 3)), 'nn': (('$', 5), ('', 5), ('-', 5)), 'e': (('', 3), ('-', 3)), 'd': (('', 3), ('-', 3)), 's': (('', 3), ('-', 3))}
    if deep:
        kinds = {'n': [(k, n) for k in ('$', '', '-', '%') for n in (1, 2, 3, 4, 9)],
                 'nn': [(k, n) for k in ('$', '', '-', '%') for n in (1, 2, 3, 4, 5, 6, 17)],
                 'e': [(k, n) for k in ('$', '', '-') for n in (1, 2, 3, 4, 6)]}
        kinds['d'] = kinds['s'] = kinds['e']
    for t in spec.OPS:
        fs = fields(t)
        if not fs:
            out.append(case('value', isa=isa, text=t, kinds=[]))
        elif len(fs) == 1:
            for k in kinds[fs[0]]:
                out.append(case('value', isa=isa, text=t, kinds=[k]))
        else:
            for k in kinds[fs[0]]:
                for k2 in kinds[fs[1]]:
                    out.append(case('value', isa=isa, text=t, kinds=[k, k2]))
        for i in range(len(fs)):
            if fs[i] == 's':
                continue
            for place in ('before', 'after', 'other') + (('gap', 'back') if fs[i] == 'e' else ()):
                for extra in ('', '+') + (('<', '>') if fs[i] in ('n', 'nn') else ()):
                    if not deep and extra and (place != 'other' or fs[i] in 'd'):
                        continue
                    for n in ((4,) if not deep else (1, 2, 3, 4, 5)):
                        out.append(case('label', isa=isa, text=t, which=i, place=place, extra=extra, n=n))
    for m in spec.MNEMONICS:
        for s in SHAPES:
            if 'i' in s and isa != 'z80':
                continue
            for v in (('1',) if not deep else '0123456789') if 'v' in s or 'i' in s else ('1',):
                out.append(case('matrix', isa=isa, mn=m, shape=s, value=v))
    for n in (1, 2, 3) + ((4,) if deep else ()):
        out.append(case('unknown', isa=isa, n=n))
    return out


def cases_z80(tier):
    return cases('z80', tier)


def cases_lr35902(tier):
    return cases('lr35902', tier)
