"""6502: every instruction, addressing mode and operand against the opcode matrix."""
from necroassembler.cpu.mos6502 import AssemblerMOS6502
from spec.mos6502 import OPCODES, MNEMONICS
from harness.lib import number, hexlit, declit, le, run

# what can be written: text around the operand -> (zero page mode, absolute mode)
FORMS = {
    '#v': ('imm', None), 'v': ('zp', 'abs'), 'v,X': ('zpx', 'abx'), 'v,Y': ('zpy', 'aby'), '(v)': (None, 'ind'),
    '(v,X)': ('izx', None), '(v),Y': ('izy', None),
}


def mnem(ctx, mn):
    return ctx.pick('case', [mn, mn.lower()])


def wrap(form, v):
    i = form.index('v')
    return form[:i] + v + form[i + 1:]


def value(ctx, mn, form, kind, n):
    """numeric operands: the short encoding exactly when the value fits it, refused when no encoding holds it"""
    small, big = FORMS[form]
    if kind == '$':
        t, v = hexlit(ctx, 'v', n, '$')
    elif kind == '%':
        t, v = number(ctx, 'v', n, 2)
        t = '%' + t
    else:
        t, v = declit(ctx, 'v', n, kind == '-')
    bits = 8 if form == '#v' else 16
    fits = ctx.and_(v < (1 << bits), v >= -(1 << (bits - 1)))
    v = ctx.ite(v < 0, v + (1 << bits), v)
    s = OPCODES.get((mn, small)) if small else None
    b = OPCODES.get((mn, big)) if big else None
    asm = AssemblerMOS6502()
    st, r = run(ctx, asm, mnem(ctx, mn) + ' ' + wrap(form, t) + '\n.db $EE')
    short = ctx.and_(fits, v < 256, s is not None)
    ok = ctx.or_(short, ctx.and_(fits, b is not None))
    if st == 'err':
        ctx.require(ctx.not_(ok), 'an instruction is refused', detail=repr(r))
        return
    ctx.require(ok, 'an instruction that does not exist is accepted')
    if short:
        ctx.require_bytes(asm.assembled_bytes, bytes([s, v, 0xEE]), 'an instruction is encoded wrongly')
    else:
        ctx.require_bytes(asm.assembled_bytes, bytes([b]) + le(v, 2) + b'\xEE', 'an instruction is encoded wrongly')


def label(ctx, mn, form, place, extra, n):
    """label operands: a known zero page address takes the short encoding, any other the absolute one"""
    small, big = FORMS[form]
    o, ov = hexlit(ctx, 'org', n, '$')
    o2, o2v = hexlit(ctx, 'org2', n, '$')
    s = OPCODES.get((mn, small)) if small else None
    b = OPCODES.get((mn, big)) if big else None
    text = mnem(ctx, mn) + ' ' + wrap(form, {'': 'lab', '+': 'lab+1', '<': '<lab', '>': '>lab'}[extra])
    asm = AssemblerMOS6502()
    tail = b'\xEE'
    if place == 'before':
        src = '.org ' + o + '\nNOP\nlab: NOP\n' + text + '\n.db $EE'
        head = b'\xEA\xEA'
        v = ov + 1
    elif place == 'far':
        # (nothing follows)
        src = '.org ' + o2 + '\nlab:\n.org ' + o + '\n' + text + '\n'
        head = b''
        tail = b''
        v = o2v
    else:
        src = '.org ' + o + '\n' + text + '\n.org ' + o2 + '\nlab:' + (' .db $EE' if extra else '')
        head = b''
        tail = tail if extra else b''
        v = o2v
    if extra == '+':
        v = v + 1
    elif extra == '<':
        v = v & 0xff
    elif extra == '>':
        v = v >> 8
    st, r = run(ctx, asm, src)
    if form == '#v':
        short = ctx.and_(v < 256, s is not None)
        ok = short
    else:
        # the short form needs an address known at that point
        short = ctx.and_(v < 256, s is not None, place != 'after')
        ok = ctx.or_(short, ctx.and_(v < 65536, b is not None))
    if st == 'err':
        ctx.require(ctx.not_(ok), 'an instruction is refused', detail=repr(r))
        return
    ctx.require(ok, 'an instruction that does not exist is accepted')
    if short:
        ctx.require_bytes(asm.assembled_bytes, head + bytes([s, v]) + tail, 'an instruction is encoded wrongly')
    else:
        ctx.require_bytes(asm.assembled_bytes, head + bytes([b]) + le(v, 2) + tail, 'an instruction is encoded wrongly')


def branch(ctx, mn, place, n):
    """branches reach -128..127 from the next instruction, and nothing else"""
    o, ov = hexlit(ctx, 'org', n, '$')
    code = OPCODES[mn, 'rel']
    asm = AssemblerMOS6502()
    t = ''
    if place == 'number':
        t, d = declit(ctx, 'd', n, ctx.bool('neg'))
        src = mnem(ctx, mn) + ' ' + t + '\n'
        head = b''
    elif place == 'forward':
        f, fv = declit(ctx, 'f', n)
        src = '.org ' + o + '\n' + mnem(ctx, mn) + ' lab\n.ram ' + f + '\nlab:'
        ctx.assume(fv > 0)
        d = fv
        head = b''
    elif place == 'backward':
        f, fv = declit(ctx, 'f', n)
        src = '.org ' + o + '\nlab:\n.ram ' + f + '\n' + mnem(ctx, mn) + ' lab\n'
        ctx.assume(fv > 0)
        d = -fv - 2
        head = b''
    else:
        o2, o2v = hexlit(ctx, 'org2', n, '$')
        src = '.org ' + o2 + '\nlab:\n.org ' + o + '\nNOP\n' + mnem(ctx, mn) + ' lab'
        d = o2v - (ov + 3)
        head = b'\xEA'
    st, r = run(ctx, asm, src)
    ok = ctx.and_(d >= -128, d <= 127)
    if st == 'err':
        ctx.require(ctx.not_(ok), 'a branch is refused', detail=repr(r))
        return
    ctx.require(ok, 'a branch out of range is accepted')
    ctx.require_bytes(asm.assembled_bytes, head + bytes([code, d & 0xff]), 'a branch is encoded wrongly')


def plain(ctx, mn):
    asm = AssemblerMOS6502()
    mode = 'imp' if (mn, 'imp') in OPCODES else 'acc'
    text = mnem(ctx, mn) + (' ' + ctx.pick('a', ['A', 'a']) if mode == 'acc' else '')
    st, r = run(ctx, asm, 'NOP\n' + text + '\nNOP')
    ctx.require(st == 'ok', 'an instruction is refused', detail=repr(r))
    ctx.require_bytes(asm.assembled_bytes, bytes([0xEA, OPCODES[mn, mode], 0xEA]), 'an instruction is encoded wrongly')


def malformed(ctx, mn, form):
    """missing, surplus and misplaced operands are refused"""
    asm = AssemblerMOS6502()
    t, v = hexlit(ctx, 'v', 2, '$')
    if form == '':
        ctx.assume((mn, 'imp') not in OPCODES)
        text = ''
    elif form == 'A':
        ctx.assume((mn, 'acc') not in OPCODES and (mn, 'abs') not in OPCODES and (mn, 'rel') not in OPCODES)
        text = 'A'
    else:
        text = ''
        for ch in form:
            text = text + (t if ch == 'v' else ch)
    st, r = run(ctx, asm, 'NOP\n' + mnem(ctx, mn) + ' ' + text)
    ctx.require(st == 'err', 'a malformed instruction is accepted')


BAD = ('', 'A', 'v,v', 'v,A', 'v,X,Y', 'v,X,X', '#v,X', '#v,#v', '(v),X', '(v,Y)', '(v', 'v)', '(v,X),Y', '(v),Y,Y', '[v]', '#', '()', '(v,X) v',
       'v v v', 'A,A', '(#v)')


def case(fn, **p):
    return {'fn': 'harness.mos6502:' + fn, 'params': p}


def cases(tier):
    deep = tier != 'quick'
    out = []
    for mn in MNEMONICS:
        modes = {m for a, m in OPCODES if a == mn}
        if modes & {'imp', 'acc'}:
            out.append(case('plain', mn=mn))
        for f in BAD:
            if f == '' and 'imp' in modes or f == 'A' and modes & {'acc', 'abs', 'rel'}:
                continue
            out.append(case('malformed', mn=mn, form=f))
        if 'rel' in modes:
            for n in (1, 2, 3, 4):
                for place in ('number', 'forward', 'backward', 'far'):
                    out.append(case('branch', mn=mn, place=place, n=n))
            continue
        for f in FORMS:
            used = [m for m in FORMS[f] if m in modes]
            for kind, n in ((('$', 2), ('$', 4), ('$', 5), ('', 3), ('-', 3), ('%', 9)) if used else (('$', 2), ('$', 4))):
                out.append(case('value', mn=mn, form=f, kind=kind, n=n))
            if deep:
                for kind in ('$', '', '-'):
                    for n in range(1, 7):
                        out.append(case('value', mn=mn, form=f, kind=kind, n=n))
            for place in ('before', 'after', 'far'):
                for extra in ('', '+', '<', '>') if used else ('',):
                    for n in ((4,) if not deep else (2, 3, 4, 5)):
                        out.append(case('label', mn=mn, form=f, place=place, extra=extra, n=n))
    return out
