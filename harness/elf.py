"""Sections, exports and the ELF container, read back by an independent reader."""
from necroassembler import Assembler
from necroassembler.linker import ELF
from harness.lib import hexlit, declit, number, le, run


class Little(Assembler):
    hex_prefixes = ('0x',)


class Big(Little):
    big_endian = True


def rd(ctx, blob, off, n, big):
    v = 0
    for i in range(n):
        b = blob[off + i] if big else blob[off + n - 1 - i]
        v = (v << 8) | b
    return v


def cstr(ctx, blob, off):
    out = []
    while True:
        b = blob[off]
        if b == 0:
            return out
        out.append(b)
        off += 1


def read_elf(ctx, blob, bits, big):
    """-> header, list of section headers (dicts)"""
    w = 4 if bits == 32 else 8
    h = {}
    h['magic'] = ctx.bytes_eq(blob[0:4], b'\x7fELF')
    h['class'] = blob[4]
    h['data'] = blob[5]
    h['type'] = rd(ctx, blob, 16, 2, big)
    h['machine'] = rd(ctx, blob, 18, 2, big)
    h['version'] = rd(ctx, blob, 20, 4, big)
    o = 24
    h['entry'] = rd(ctx, blob, o, w, big)
    h['phoff'] = rd(ctx, blob, o + w, w, big)
    h['shoff'] = ctx.concrete(rd(ctx, blob, o + 2 * w, w, big))
    o += 3 * w + 4
    h['ehsize'] = rd(ctx, blob, o, 2, big)
    h['phnum'] = rd(ctx, blob, o + 4, 2, big)
    h['shentsize'] = ctx.concrete(rd(ctx, blob, o + 6, 2, big))
    h['shnum'] = ctx.concrete(rd(ctx, blob, o + 8, 2, big))
    h['shstrndx'] = ctx.concrete(rd(ctx, blob, o + 10, 2, big))
    secs = []
    for i in range(h['shnum']):
        o = h['shoff'] + i * h['shentsize']
        s = {'name': ctx.concrete(rd(ctx, blob, o, 4, big)), 'type': rd(ctx, blob, o + 4, 4, big)}
        o += 8
        for k in ('flags', 'addr', 'offset', 'size'):
            s[k] = rd(ctx, blob, o, w, big)
            o += w
        s['link'] = rd(ctx, blob, o, 4, big)
        s['info'] = rd(ctx, blob, o + 4, 4, big)
        o += 8
        s['align'] = rd(ctx, blob, o, w, big)
        s['entsize'] = rd(ctx, blob, o + w, w, big)
        secs.append(s)
    return h, secs


def flags_of(perm):
    f = 0
    if 'R' in perm:
        f |= 2
    if 'W' in perm:
        f |= 1
    if 'X' in perm or 'E' in perm:
        f |= 4
    return f


def obj(ctx, bits, big, plan, machine, align, orgs, used=False):
    """plan: list of (permissions, number of bytes, exported?, position of the label, .ram bytes)"""
    asm = Big() if big else Little()
    src = ''
    want = []
    data = b''
    pc = 0
    syms = []
    for i, (perm, n, exp, at, ram) in enumerate(plan):
        start = pc
        src = src + '.section .s' + str(i) + ' ' + perm
        if orgs:
            t, v = hexlit(ctx, 'org%d' % i, 3)
            src = src + ' ' + t
            start = v
        src = src + '\n'
        off = len(data)
        for k in range(n):
            if k == at:
                src = src + 'lab' + str(i) + ':\n'
            t, v = hexlit(ctx, 'b%d_%d' % (i, k), 2)
            src = src + '.db ' + t + '\n'
            data = data + bytes([v])
        if at >= n:
            src = src + 'lab' + str(i) + ':\n'
        if exp:
            src = src + '.export lab' + str(i) + '\n'
            syms.append((i, 'lab%d' % i, min(at, n)))
        if ram:
            src = src + '.ram ' + str(ram) + '\n'
        pc = start + n + ram
        want.append((start, off, n, perm))
    linker = ELF(bits, big, 1, machine, align)

    def go():
        if used:
            # the linker has made another object before
            other = Big() if big else Little()
            other.assemble('.section .other RW 16\nlab0: .db 1\n.export lab0\n.section .s0 X\n.db 2')
            other.link(linker)
        asm.assemble(src)
        asm.link(linker)
    st, r = ctx.attempt(go)
    ctx.require(st == 'ok', 'an object is refused', detail=repr(r))
    blob = asm.assembled_bytes
    ctx.observe('blob', blob)
    total = ctx.concrete(len(blob))
    h, secs = read_elf(ctx, blob, bits, big)
    ctx.require(ctx.and_(h['magic'], h['class'] == (1 if bits == 32 else 2), h['data'] == (2 if big else 1), h['type'] == 1,
                         h['machine'] == machine, h['version'] == 1, h['phnum'] == 0,
                         h['ehsize'] == (52 if bits == 32 else 64)), 'the ELF header is wrong')
    ctx.require(h['shentsize'] == (40 if bits == 32 else 64), 'the section header size is wrong')
    ctx.require(h['shoff'] + h['shnum'] * h['shentsize'] <= total, 'the section headers are outside the file')
    ctx.require(0 < h['shstrndx'] < h['shnum'], 'no section name table')
    ctx.require(secs[0]['type'] == 0, 'the first section header is not null')
    names = ctx.concrete(secs[h['shstrndx']]['offset'])
    byname = {}
    for i, s in enumerate(secs[1:]):
        byname[''.join([chr(c) for c in cstr(ctx, blob, names + s['name'])])] = (i + 1, s)
        ctx.require(s['offset'] + s['size'] <= total, 'a section is outside the file')
    for i, (start, off, n, perm) in enumerate(want):
        nm = '.s%d' % i
        ctx.require(nm in byname, 'a section is missing')
        idx, s = byname[nm]
        ctx.require(s['addr'] == start, 'a section has the wrong address')
        ctx.require(s['size'] == n, 'a section has the wrong size')
        ctx.require(s['flags'] == flags_of(perm), 'a section has the wrong permissions')
        ctx.require(s['align'] == align, 'a section has the wrong alignment')
        ctx.require(s['type'] == (1 if n else 8), 'a section has the wrong type')
        o = ctx.concrete(s['offset'])
        ctx.require(ctx.bytes_eq(blob[o:o + n], data[off:off + n]), 'a section has the wrong content')
    ctx.require('.symtab' in byname, 'no symbol table')
    si, sym = byname['.symtab']
    ent = 16 if bits == 32 else 24
    ctx.require(ctx.and_(sym['type'] == 2, sym['entsize'] == ent, sym['info'] == 1), 'the symbol table header is wrong')
    link = ctx.concrete(sym['link'])
    ctx.require(secs[link]['type'] == 3, 'the symbol table has no string table')
    strs = ctx.concrete(secs[link]['offset'])
    so = ctx.concrete(sym['offset'])
    cnt = ctx.concrete(sym['size']) // ent
    ctx.require(cnt == len(syms) + 1, 'a symbol is lost or invented')
    ctx.require(ctx.bytes_eq(blob[so:so + ent], bytes(ent)), 'the first symbol is not the undefined one')
    left = {n: (i, at) for i, n, at in syms}
    for k in range(1, cnt):
        o = so + k * ent
        nm = ''.join([chr(c) for c in cstr(ctx, blob, strs + ctx.concrete(rd(ctx, blob, o, 4, big)))])
        if bits == 32:
            value = rd(ctx, blob, o + 4, 4, big)
            info = blob[o + 12]
            shndx = rd(ctx, blob, o + 14, 2, big)
        else:
            info = blob[o + 4]
            shndx = rd(ctx, blob, o + 6, 2, big)
            value = rd(ctx, blob, o + 8, 8, big)
        ctx.require(nm in left, 'a symbol has the wrong name')
        i, at = left.pop(nm)
        ctx.require(info >> 4 == 1, 'an exported symbol is not global')
        ctx.require(shndx == byname['.s%d' % i][0], 'a symbol is in the wrong section')
        ctx.require(value == at, 'a symbol has the wrong value')


def padded(ctx, bits, big, n, m, more):
    """the padding of a bounded region is part of the section it is in"""
    asm = Big() if big else Little()
    t, v = hexlit(ctx, 'v', 2)
    fill = ctx.int('fill', 0, 255)
    asm.fill_value = fill
    src = '.section one RW\n.org 0x100 0x' + '%x' % (0x100 + n + m - 1) + '\n' + ('.db ' + t + '\n') * n
    data = bytes([v]) * n + bytes([fill]) * m
    if more:
        src = src + '.section two RX 0x200\nlab: .db 7\n.export lab\n'
    st, r = ctx.attempt(lambda: (asm.assemble(src), asm.link(ELF(bits, big, 1, 3))))
    ctx.require(st == 'ok', 'an object is refused', detail=repr(r))
    blob = asm.assembled_bytes
    h, secs = read_elf(ctx, blob, bits, big)
    for s, want in ((secs[1], data),) + (((secs[2], b'\x07'),) if more else ()):
        ctx.require(s['size'] == len(want), 'a section has the wrong size')
        o = ctx.concrete(s['offset'])
        ctx.require(ctx.bytes_eq(blob[o:o + len(want)], want), 'a section has the wrong content')


def undefined(ctx, bits, big, size):
    """a reference that cannot be resolved is never silently emitted as zero"""
    asm = Big() if big else Little()
    t, v = hexlit(ctx, 'v', 2)
    d = {1: '.db', 2: '.dw', 4: '.dd'}[size]
    linker = ELF(bits, big, 1, 3, 0)

    def go():
        asm.assemble('.section .text RX\n.db ' + t + '\n' + d + ' nowhere\n')
        asm.link(linker)
    st, r = ctx.attempt(go)
    # the object would have to contain a relocation section
    ctx.require(st == 'err', 'an undefined symbol is silently replaced with zero', known=('elf-undefined-symbol', True))


def section_errors(ctx, form):
    asm = Little()
    t, v = hexlit(ctx, 'v', 2)
    p = ctx.chars('p', 2, 'RWXEABrx')
    q = ctx.chars('q', 2, 'ab')
    good = True
    for c in p:
        good = ctx.and_(good, ctx.or_(c == 'R', c == 'W', c == 'X', c == 'E'))
    if form == 'perm':
        st, r = run(ctx, asm, '.section s ' + p + '\n.db ' + t)
        ctx.require(good if st == 'ok' else ctx.not_(good), 'section permissions are not checked')
    elif form == 'dup':
        st, r = run(ctx, asm, '.section ab R\n.db ' + t + '\n.section ' + q + ' W\n.db 1')
        ctx.require((q != 'ab') if st == 'ok' else (q == 'ab'), 'a section is defined twice')
    elif form == 'export':
        st, r = run(ctx, asm, '.export ab\n.export ' + q + '\nab:\n.db ' + t)
        ctx.require((q != 'ab') if st == 'ok' else (q == 'ab'), 'a symbol is exported twice')
    elif form == 'place':
        # an address has up to 64 bits
        u, w = number(ctx, 'w', 17, 16)
        st, r = run(ctx, asm, '.section ab R 0x' + u + '\nx:\n.db ' + t)
        ctx.require((w < 1 << 64) if st == 'ok' else (w >= 1 << 64), 'the address of a section is not checked')
        if st == 'ok':
            ctx.require(ctx.and_(asm.sections['ab']['start'] == w, asm.get_label_absolute_address_by_name('x') == w), 'a section is misplaced')
    elif form == 'args':
        s = ctx.choice('s', ['.section', '.section a', '.section a R 1 2', '.section a R nope', '.export', '.export a b'])
        st, r = run(ctx, asm, s)
        ctx.require(st == 'err' and r == 'InvalidArgumentsForDirective', 'a malformed directive is accepted')


def case(fn, **p):
    return {'fn': 'harness.elf:' + fn, 'params': p}


def cases(tier):
    out = []
    deep = tier != 'quick'
    plans = [[('RX', 2, True, 1, 0)], [('RX', 3, True, 0, 0), ('RW', 2, True, 1, 0)], [('RX', 1, False, 0, 0), ('R', 4, True, 3, 0)],
             [('RX', 2, True, 2, 0), ('W', 0, True, 0, 0)], [('E', 2, True, 0, 3), ('RWX', 2, True, 1, 0), ('R', 1, True, 0, 0)],
             [('R', 2, False, 0, 0), ('W', 3, False, 1, 2)], [('RW', 1, True, 0, 0), ('X', 0, False, 0, 4), ('WE', 2, True, 1, 0)],
             [('R', 1, True, i % 2, 0) for i in range(5)], [('RX', i % 3, i != 2, 0, i % 2) for i in range(9)]]
    if deep:
        for a in (0, 1, 3):
            for b in (0, 2, 4):
                for c in (0, 1):
                    plans.append([('RX', a, True, c, b), ('RW', b, True, 1, a), ('R', c + 1, True, 0, 0), ('W', 2, c == 1, 1, 1)])
    for bits in (32, 64):
        for big in (False, True):
            for plan in plans:
                for orgs in (False, True):
                    out.append(case('obj', bits=bits, big=big, plan=plan, machine=3 if not big else 0x14, align=4 if big else 0,
                                    orgs=orgs, used=orgs and len(plan) < 4))
                if len(plan) < 3:
                    out.append(case('obj', bits=bits, big=big, plan=plan, machine=8, align=1, orgs=False, used=True))
            for size in (1, 2, 4):
                out.append(case('undefined', bits=bits, big=big, size=size))
    for bits in (32, 64):
        for n in (1, 3):
            for m in (0, 1, 4):
                for more in (False, True):
                    out.append(case('padded', bits=bits, big=n == 3, n=n, m=m, more=more))
    for f in ('perm', 'dup', 'export', 'args', 'place'):
        out.append(case('section_errors', form=f))
    return out
