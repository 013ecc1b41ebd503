"""Processors whose instructions are words with fields (MIPS, Thumb, PowerPC): every instruction, operand and refusal."""
from harness.lib import number, hexlit, declit, run
from spec import forms
from spec.forms import parts

PUNCT = ',()[]{}'


def slots(spec, text):
    """the fields of an instruction, in order"""
    return [p for p in parts(text)[1] if p in spec.FIELDS]


def render(ctx, spec, text, values):
    m, ps = parts(text)
    out = ctx.pick('case', [m.lower(), m.upper()]) + ' '
    values = list(values)
    for p in ps:
        if p in spec.FIELDS:
            out = out + values.pop(0)
        elif p in PUNCT:
            out = out + p
        else:
            out = out + p
    return out


def reg(ctx, spec, f, name, which):
    """a symbolic register: of every name it has, of its plain ones, or just one of them"""
    names = spec.FIELDS[f]['names']
    if which != 'all':
        names = names[:spec.FIELDS[f].get('plain', len(names))]
        if which == 'one':
            k = int(name[1:])
            names = names[1 + k:2 + k] or names[:1]
    return ctx.pickv(name, names)


def literal(ctx, f, kind, n, name):
    """-> text, value, whether it fits, whether the statement leaves it open"""
    if kind == '0x':
        t, v = hexlit(ctx, name, n)
        ok = v <= f['hex']
    else:
        t, v = declit(ctx, name, n, kind == '-')
        ok = ctx.and_(v >= f['lo'], v <= f['hi'])
    return f.get('prefix', '') + t, v, ok, f['open'](v, kind) if 'open' in f else False


def value(ctx, cpu, text, kinds, full):
    """all registers and numbers of an instruction: encoded in their fields, or refused"""
    cls, spec = cpu_of(cpu)
    asm = cls()
    word = spec.OPS[text] if text in spec.OPS else spec.OPTIONAL[text]
    ts, ok, vague = [], True, False
    kid, alt = spec.KNOWN.get(text, (None, {}))
    kword, kok = word, True
    kinds = list(kinds)
    k = 0
    for s in slots(spec, text):
        f = spec.FIELDS[s]
        if f['kind'] == 'reg':
            t, v = reg(ctx, spec, s, 'r%d' % k, 'plain' if full is None else 'all' if full in (k, -1) else 'one')
        else:
            kind, n = kinds.pop(0)
            t, v, fits, open_ = literal(ctx, f, kind, n, 'v%d' % k)
            ok = ctx.and_(ok, fits)
            vague = ctx.or_(vague, ctx.and_(fits, open_))
            g = alt.get(s, f)
            kok = ctx.and_(kok, v >= g['lo'], v <= g['hi'])
        word = word | f['put'](v)
        kword = kword | alt.get(s, f)['put'](v)
        ts.append(t)
        k += 1
    ctx.assume(ctx.not_(vague))
    one, two = '.db ' + '1, ' * (spec.ALIGN - 1) + '1\n', '\n.db 2'
    st, r = run(ctx, asm, one + render(ctx, spec, text, ts) + two)
    if st == 'err':
        ctx.require(ctx.or_(ctx.not_(ok), text in spec.OPTIONAL), 'an instruction is refused', detail=repr(r))
        return
    one, two = b'\x01' * spec.ALIGN, b'\x02'
    known = None
    if kid:
        # exactly the recorded defect
        known = (kid, ctx.and_(kok, ctx.bytes_eq(asm.assembled_bytes, one + spec.pack(cpu, text, kword) + two)))
    ctx.require(ok, 'an operand that does not fit is accepted', known=known)
    ctx.require_bytes(asm.assembled_bytes, one + spec.pack(cpu, text, word) + two, 'an instruction is encoded wrongly', known=known)


def label(ctx, cpu, text, which, place, extra, n):
    """a label stands for its address, or for the distance to it"""
    cls, spec = cpu_of(cpu)
    asm = cls()
    word = spec.OPS[text] if text in spec.OPS else spec.OPTIONAL[text]
    o, ov = hexlit(ctx, 'org', n)
    o2, o2v = hexlit(ctx, 'org2', n)
    ctx.assume(ov % spec.ALIGN == 0)
    ts, k = [], 0
    field = None
    for s in slots(spec, text):
        f = spec.FIELDS[s]
        if k == which:
            field = f
            t = f.get('prefix', '') + {'': 'lab', '+': 'lab+4'}[extra]
        elif f['kind'] == 'reg':
            t, v = reg(ctx, spec, s, 'r%d' % k, 'plain')
            word = word | f['put'](v)
        else:
            t, v, fits, _ = literal(ctx, f, '', 1, 'v%d' % k)
            ctx.assume(fits)
            word = word | f['put'](v)
        ts.append(t)
        k += 1
    lf = field['label']
    line = render(ctx, spec, text, ts)
    size = spec.size(text)
    mid = '.db ' + '1, ' * (spec.ALIGN - 1) + '1\n'
    midb = b'\x01' * spec.ALIGN
    if place == 'before':
        src = '.org ' + o + '\n' + mid + 'lab:\n' + mid + line + '\n.db 3'
        head, tail = midb + midb, b'\x03'
        pc = ov + 2 * spec.ALIGN
        v = ov + spec.ALIGN
    elif place == 'gap':
        g, gv = hexlit(ctx, 'gap', min(n, 8))
        ctx.assume(gv > 0)
        # (the instruction may be at address 0)
        src = '.org ' + o + '\n' + line + '\n.ram ' + g + '\nlab:\n.db 3'
        head, tail = b'', b'\x03'
        pc = ov
        v = pc + size + gv
    elif place == 'back':
        g, gv = hexlit(ctx, 'gap', min(n, 8))
        ctx.assume(gv > 0)
        ctx.assume((ov + gv) % spec.ALIGN == 0)
        src = '.org ' + o + '\nlab:\n.ram ' + g + '\n' + line + '\n.db 3'
        head, tail = b'', b'\x03'
        pc = ov + gv
        v = ov
    else:
        # (nothing follows)
        src = '.org ' + o2 + '\nlab:\n.org ' + o + '\n' + mid + line
        head, tail = midb, b''
        pc = ov + spec.ALIGN
        v = o2v
    rel = lf['mode'] == 'rel'
    if extra:
        v = v + 4
    absolute = v
    if rel:
        v = v - lf['base'](pc)
    ok = ctx.and_(v >= lf['lo'], v <= lf['hi'])
    if 'mult' in lf:
        ok = ctx.and_(ok, absolute % lf['mult'] == 0)
    if 'open' in lf:
        ctx.assume(ctx.not_(ctx.and_(ok, lf['open'](v))))
    st, r = run(ctx, asm, src)
    if st == 'err':
        ctx.require(ctx.not_(ok), 'an instruction is refused', detail=repr(r))
        return
    ctx.require(ok, 'a label that does not fit is accepted')
    word = word | (lf.get('put') or field['put'])(v)
    ctx.require_bytes(asm.assembled_bytes, head + spec.pack(cpu, text, word) + tail, 'a label is encoded wrongly')


def nowhere(ctx, cpu, text, which, n):
    """an operand that is neither a number nor a label is refused, whatever the others are"""
    cls, spec = cpu_of(cpu)
    asm = cls()
    name = ctx.chars('name', n, 'ux_U')
    ts = []
    for k, s in enumerate(slots(spec, text)):
        f = spec.FIELDS[s]
        if k == which:
            ts.append(name)
        elif f['kind'] == 'reg':
            ts.append(reg(ctx, spec, s, 'r%d' % k, 'one')[0])
        else:
            ts.append('lab')
    st, r = run(ctx, asm, 'lab:\n' + render(ctx, spec, text, ts))
    ctx.require(st == 'err', 'an unknown name is accepted')


def matrix(ctx, cpu, mn, shape):
    """a combination of operands is accepted exactly when the processor has it, whatever registers are named"""
    cls, spec = cpu_of(cpu)
    asm = cls()
    rs, text = [], ''
    for ch in shape:
        if ch == 'r':
            r = ctx.pick('r%d' % len(rs), spec.WORDS)
            rs.append(r)
            text = text + r
        elif ch == 'v':
            text = text + '4'
        elif ch == 'z':
            text = text + '0'
        elif ch == '#':
            text = text + '#4'
        else:
            text = text + ch
    st, r = run(ctx, asm, mn + ' ' + text)
    for table in (spec.OPS, spec.OPTIONAL):
        for t, ps in forms.of(table, mn):
            word = match(ctx, spec, ps, shape, rs, table[t], {})
            if word is None:
                continue
            if st == 'err' and table is spec.OPTIONAL:
                return
            ctx.require(st == 'ok', 'an instruction is refused', detail=repr(r))
            known = None
            if t in spec.KNOWN:
                kid, alt = spec.KNOWN[t]
                known = (kid, ctx.bytes_eq(asm.assembled_bytes, spec.pack(cpu, t, match(ctx, spec, ps, shape, rs, table[t], alt))))
            ctx.require_bytes(asm.assembled_bytes, spec.pack(cpu, t, word), 'an instruction is encoded wrongly', known=known)
            return
    if spec.vague(ctx, mn, shape, rs):
        return
    ctx.require(st == 'err', 'an instruction the processor does not have is accepted')


def match(ctx, spec, ps, shape, rs, word, alt):
    """the word of an instruction if its operands are of this shape with these registers, else None"""
    shape = [c for c in shape if c != ' ']
    if len(ps) != len(shape):
        return None
    k = 0
    conds = []
    for p, ch in zip(ps, shape):
        f = alt.get(p, spec.FIELDS.get(p))
        if ch == 'r':
            if f is None:
                if p in PUNCT:
                    return None
                conds.append((rs[k], p, None))
            else:
                if f['kind'] != 'reg':
                    return None
                conds.append((rs[k], None, f))
            k += 1
        elif ch == 'z':
            if f is None or f['kind'] == 'reg' and ('0', 0) not in f['names'] or f.get('prefix'):
                return None
        elif ch == 'v':
            if f is None or f['kind'] == 'reg' or f.get('prefix'):
                if p != '4':
                    return None
            elif not f['lo'] <= 4 <= f['hi']:
                return None
            else:
                word = word | f['put'](4)
        elif ch == '#':
            if f is None or f['kind'] == 'reg' or not f.get('prefix'):
                return None
            word = word | f['put'](4)
        elif ch != p:
            return None
    for r, lit, f in conds:
        if f is None:
            if not (r.lower() == lit.lower()):
                return None
            continue
        hit = False
        v = 0
        names = f['names']
        hit = ctx.or_(*[r == n for n, _ in names if len(n) == len(r)]) if any(len(n) == len(r) for n, _ in names) else False
        if not hit:
            return None
        for n, num in names:
            if len(n) == len(r):
                v = ctx.ite(r == n, num, v)
        word = word | f['put'](v)
    return word


def push(ctx, items):
    """PUSH of any registers, ranges of them and LR"""
    cls, spec = cpu_of('thumb')
    asm = cls()
    ts, mask, ok = [], 0, True
    few = [('r0', 0), ('r4', 4), ('r7', 7), ('r8', 8)] if len(items) < 4 else [('r1', 1), ('r6', 6)]
    for i, it in enumerate(items):
        if it == 'lr':
            ts.append(ctx.pick('lr%d' % i, ['lr', 'LR']))
            ok = ctx.and_(ok, i == len(items) - 1)
            continue
        a, av = ctx.pickv('a%d' % i, spec.BOTH[:10] + [('R3', 3), ('x1', 99), ('pc', 98)] if len(items) < 2 else few)
        b, bv = a, av
        if it == 'r-r':
            b, bv = ctx.pickv('b%d' % i, spec.BOTH[:10] + [('R3', 3), ('x1', 99)] if len(items) < 2 else few)
            ts.append(a + '-' + b)
        else:
            ts.append(a)
        ok = ctx.and_(ok, av < 8, bv < 8, av <= bv)
        for j in range(8):
            mask = mask | ctx.ite(ctx.and_(av <= j, j <= bv), 1 << j, 0)
    lr = 'lr' in items
    st, r = run(ctx, asm, ctx.pick('case', ['PUSH', 'push']) + ' {' + ', '.join(ts) + '}')
    if st == 'err':
        ctx.require(ctx.not_(ok), 'an instruction is refused', detail=repr(r))
        return
    ctx.require(ok, 'a malformed register list is accepted')
    # (recorded defect: bit 11 instead of 8 for LR)
    known = ('thumb-push-lr', ctx.and_(lr, ctx.bytes_eq(asm.assembled_bytes, bytes([mask, 0xbc]))))
    ctx.require_bytes(asm.assembled_bytes, bytes([mask, 0xb4 | lr]), 'a register list is encoded wrongly', known=known)


def malformed_push(ctx, text):
    cls, spec = cpu_of('thumb')
    asm = cls()
    r = ctx.pick('r', ['r0', 'r1', 'r7', 'lr', 'R3'])
    out = ''
    for ch in text:
        out = out + (r if ch == 'r' else ch)
    st, e = run(ctx, asm, 'PUSH ' + out)
    ctx.require(st == 'err', 'a malformed register list is accepted')


def unknown(ctx, cpu, n):
    """words that are no instruction are refused"""
    cls, spec = cpu_of(cpu)
    asm = cls()
    m = ctx.chars('m', n, spec.LETTERS)
    st, r = run(ctx, asm, m)
    for w in spec.OPS:
        if ' ' not in w and len(w) == n:
            if m == w:
                ctx.require(st == 'ok', 'an instruction is refused')
                ctx.require_bytes(asm.assembled_bytes, spec.pack(cpu, w, spec.OPS[w]), 'an instruction is encoded wrongly')
                return
    ctx.require(st == 'err', 'a word that is no instruction is accepted')


def cpu_of(cpu):
    if cpu in ('mips', 'psx'):
        from necroassembler.cpu.mips32 import AssemblerMIPS32
        from necroassembler.platforms.psx import AssemberPSX
        from spec import mips32
        return (AssemblerMIPS32 if cpu == 'mips' else AssemberPSX), mips32
    if cpu == 'thumb':
        from necroassembler.cpu.thumb import AssemblerThumb
        from spec import thumb
        return AssemblerThumb, thumb
    if cpu == 'powerpc':
        from necroassembler.cpu.powerpc import AssemblerPowerPC
        from spec import powerpc
        return AssemblerPowerPC, powerpc
    raise KeyError(cpu)


def case(fn, **p):
    return {'fn': 'harness.words:' + fn, 'params': p}


def product(lists):
    out = [[]]
    for l in lists:
        out = [o + [x] for o in out for x in l]
    return out


def cases(cpus, tier):
    deep = tier != 'quick'
    out = []
    for cpu in cpus:
        cls, spec = cpu_of(cpu)
        for t in spec.OPS:
            ss = slots(spec, t)
            nums = [spec.FIELDS[s] for s in ss if spec.FIELDS[s]['kind'] == 'num']
            kinds = [[[k, d] for k, d in (f['deep'] if deep else f['quick'])] for f in nums]
            if not deep and len(nums) > 1:
                # vary one operand at a time
                combos = []
                for i in range(len(nums)):
                    for k in kinds[i]:
                        combos.append([k if j == i else ['', 1] for j in range(len(nums))])
            else:
                combos = product(kinds)
            regs = [i for i in range(len(ss)) if spec.FIELDS[ss[i]]['kind'] == 'reg']
            for c in combos:
                # any registers at once; every name of each register in turn
                out.append(case('value', cpu=cpu, text=t, kinds=c, full=None))
            for i in [] if cpu != cpus[0] and not deep else regs + ([-1] if deep and len(regs) < 3 else []):
                out.append(case('value', cpu=cpu, text=t, kinds=[['', 1]] * len(nums), full=i))
            for i in range(len(ss)):
                f = spec.FIELDS[ss[i]]
                if f['kind'] != 'reg' and len(nums) > 1 and cpu == cpus[0]:
                    out.append(case('nowhere', cpu=cpu, text=t, which=i, n=2))
                if 'label' not in f:
                    continue
                for place in ('before', 'other', 'gap', 'back') if f['label']['mode'] == 'rel' else ('before', 'other', 'gap'):
                    if cpu != cpus[0] and place in ('before', 'gap') and not deep:
                        continue
                    for extra in ('', '+') if place == 'other' or deep else ('',):
                        for n in f['label']['deep'] if deep else f['label']['quick']:
                            out.append(case('label', cpu=cpu, text=t, which=i, place=place, extra=extra, n=n))
    cpu = cpus[0]
    cls, spec = cpu_of(cpu)
    for mn in spec.MNEMONICS:
        for s in spec.shapes(mn, deep) if hasattr(spec, 'shapes') else spec.SHAPES:
            out.append(case('matrix', cpu=cpu, mn=mn, shape=s))
    for n in spec.LENGTHS + ((4,) if deep else ()):
        out.append(case('unknown', cpu=cpu, n=n))
    return out


def cases_mips(tier):
    return cases(('mips', 'psx'), tier)


def cases_thumb(tier):
    out = cases(('thumb',), tier)
    for l in range(1, 5 if tier == 'quick' else 6):
        for items in product([['r', 'r-r', 'lr']] * l):
            if items.count('r-r') < 3 and (l < 4 or tier != 'quick' or items.count('r-r') < 2):
                out.append(case('push', items=items))
    for t in ('', 'r', '{}', '{r', 'r}', '{r-}', '{-r}', '{r-r-r}', '{r r', '{4}', '{r,4}', '{4-5}', '{r-4}', '(r)', '[r]', '{{r}}', '{r}{r}', 'r{r}', '{r},r', '{#4}'):
        out.append(case('malformed_push', text=t))
    return out


def cases_powerpc(tier):
    return cases(('powerpc',), tier)
