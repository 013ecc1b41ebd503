"""Where bytes go: origins, bounded regions, padding, reservation, repetition (one reference model for all of them)."""
from necroassembler import Assembler, opcode
from harness.lib import hexlit, declit, le, run


class Model(Assembler):
    """a small processor: OP addr24, BR rel16"""
    hex_prefixes = ('0x',)

    @opcode('OP')
    def op(self, instr):
        v = self.parse_integer_or_label(label=instr.tokens[1], size=3, bits_size=24, offset=1)
        return bytes([0xEA, v & 0xff, (v >> 8) & 0xff, (v >> 16) & 0xff])

    @opcode('BR')
    def br(self, instr):
        v = self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=16, relative=self.pc + 3, offset=1)
        return bytes([0xEB, v & 0xff, (v >> 8) & 0xff])


class Ref:
    """the meaning of the layout directives"""

    def __init__(self, ctx, fill):
        self.ctx = ctx
        self.fill = fill
        self.org = 0
        self.cnt = 0
        self.end = None          # inclusive
        self.parts = []          # bytes, or functions returning bytes once every label is known
        self.bad = False         # when the program has to be refused
        self.over = False        # when the content overruns its region (outside the claim)
        self.labels = {}

    def pc(self):
        return self.org + self.cnt

    def fail_if(self, c):
        self.bad = self.ctx.or_(self.bad, c)

    def emit(self, blob, n):
        self.parts.append(blob)
        self.cnt = self.cnt + n

    def pad(self, v, n):
        """n >= 0 unless the program is refused"""
        self.emit(bytes([v] * n), n)

    def close(self):
        if self.end is not None:
            self.over = self.ctx.or_(self.over, self.pc() > self.end + 1)

    def set_org(self, start, end):
        if end is not None:
            self.fail_if(end < start)
        if self.end is not None:
            # a bounded region is padded up to its last address, or up to the next origin inside it
            self.close()
            self.fail_if(self.ctx.or_(start <= self.org, start < self.pc()))
            stop = self.ctx.ite(start > self.end, self.end + 1, start)
            self.pad(self.fill, stop - self.pc())
        self.org = start
        self.end = end
        self.cnt = 0

    def finish(self):
        if self.end is not None:
            self.close()
            self.pad(self.fill, self.end + 1 - self.pc())

    def absolute(self, name):
        self.emit(b'\xEA', 1)
        self.emit(lambda: le(self.labels[name], 3), 3)

    def relative(self, name):
        self.emit(b'\xEB', 1)
        base = self.pc() + 2

        def value():
            d = self.labels[name] - base
            self.fail_if(self.ctx.or_(d < -32768, d > 32767))
            return le(d & 0xffff, 2)
        self.emit(value, 2)

    def bytes(self):
        out = b''
        for p in self.parts:
            out = out + (p() if callable(p) else p)
        return out


def build(ctx, ops, an, sn, head, preset=True):
    """-> (source, reference state). One letter per statement; operands are symbolic."""
    fill = ctx.int('fillvalue', 0, 255) if preset else 0
    ref = Ref(ctx, fill)
    src = ''
    if head:
        # the addresses of all boundaries, as the program itself sees them
        for i in range(len(ops)):
            src = src + '.dd l' + str(i) + '\n'
            ref.emit(lambda i=i: le(ref.labels['l%d' % i], 4), 4)
    for i, op in enumerate(ops):
        k = '%s%d' % (op, i)
        label = 'l%d' % i
        if op == 'O':
            t, v = hexlit(ctx, k, an)
            src = src + '.org ' + t + '\n'
            ref.set_org(v, None)
        elif op == 'B':
            t, v = hexlit(ctx, k, an)
            t2, v2 = hexlit(ctx, k + 'e', an)
            src = src + '.org ' + t + ' ' + t2 + '\n'
            ref.set_org(v, v2)
        elif op == 'D':
            t, v = hexlit(ctx, k, 2)
            src = src + '.db ' + t + ', 7\n'
            ref.emit(bytes([v, 7]), 2)
        elif op == 'W':
            t, v = hexlit(ctx, k, 4)
            src = src + '.dw ' + t + '\n'
            ref.emit(le(v, 2), 2)
        elif op == 'F':
            t, v = declit(ctx, k, sn)
            src = src + '.fill ' + t + '\n'
            ref.pad(fill, v)
        elif op == 'G':
            t, v = declit(ctx, k, sn)
            tb, b = hexlit(ctx, k + 'b', 2)
            src = src + '.fill ' + t + ' ' + tb + '\n'
            ref.pad(b, v)
        elif op == 'A':
            # the boundary is chosen, the address is symbolic
            n = ctx.choice(k, [1, 2, 4, 7, 16, 256, 768, 1000] if len(ops) <= 2 else [1, 4, 256] if sn < 3 else [7, 512])
            src = src + '.align ' + str(n) + '\n'
            m = ref.pc() % n
            ref.pad(fill, ctx.ite(m == 0, 0, n - m))
        elif op == 'T' or op == 't':
            t, v = hexlit(ctx, k, an)
            b = fill
            tb = ''
            if op == 't':
                tb, b = hexlit(ctx, k + 'b', 2)
            src = src + '.goto ' + t + ' ' + tb + '\n'
            ref.fail_if(v < ref.pc())
            ref.pad(b, v - ref.pc())
        elif op == 'U' or op == 'u':
            t, v = hexlit(ctx, k, an)
            b = fill
            tb = ''
            if op == 'u':
                tb, b = hexlit(ctx, k + 'b', 2)
            src = src + '.upto ' + t + ' ' + tb + '\n'
            ref.fail_if(v < ref.cnt)
            ref.pad(b, v - ref.cnt)
        elif op == 'R':
            t, v = declit(ctx, k, sn)
            src = src + '.ram ' + t + '\n'
            ref.fail_if(v == 0)
            ref.cnt = ref.cnt + v
        elif op == 'P':
            n = ctx.choice(k, [0, 1, 2, 3, 5])
            tb, b = hexlit(ctx, k + 'b', 2)
            src = src + '.repeat ' + str(n) + '\n.db ' + tb + '\n.dw 0x1234\n.endrepeat\n'
            ref.fail_if(n == 0)
            for _ in range(n):
                ref.emit(bytes([b, 0x34, 0x12]), 3)
        elif op == 'Q':
            # references inside a repeated block are resolved in every copy
            n = ctx.choice(k, [1, 2, 3])
            src = src + '.repeat ' + str(n) + '\n.db 1\nOP ' + label + '\nBR ' + label + '\n.endrepeat\n'
            for _ in range(n):
                ref.emit(b'\x01', 1)
                ref.absolute(label)
                ref.relative(label)
        elif op in ('S', 's'):
            # a repeated block that reserves space (at its end, or between references)
            n = ctx.choice(k, [1, 2, 3])
            t, v = declit(ctx, k + 'r', sn)
            ref.fail_if(v == 0)
            inner = '.db 1\n.ram ' + t + '\n' if op == 's' else 'BR ' + label + '\n.ram ' + t + '\nOP ' + label + '\nBR ' + label + '\n'
            src = src + '.repeat ' + str(n) + '\n' + inner + '.endrepeat\n'
            for _ in range(n):
                if op == 's':
                    ref.emit(b'\x01', 1)
                else:
                    ref.relative(label)
                ref.cnt = ref.cnt + v
                if op == 'S':
                    ref.absolute(label)
                    ref.relative(label)
        elif op == 'X':
            # a forward reference to the next boundary, and a backward one to the first
            src = src + 'OP ' + label + '\nOP l0\n'
            ref.absolute(label)
            ref.absolute('l0')
        elif op == 'Y':
            src = src + 'BR ' + label + '\nBR l0\n'
            ref.relative(label)
            ref.relative('l0')
        src = src + label + ':\n'
        ref.labels[label] = ref.pc()
    return src, ref


def program(ctx, ops, an, sn, head=True, preset=True):
    """the output of a sequence of statements, and the address of every boundary between them"""
    asm = Model()
    src, ref = build(ctx, ops, an, sn, head, preset)
    if preset:
        asm.fill_value = ref.fill    # zero otherwise
    names = sorted(ref.labels)
    ref.finish()
    ctx.assume(ctx.not_(ref.over))
    want = ref.bytes()
    st, r = run(ctx, asm, src)
    if st == 'ok':
        ctx.require(ctx.not_(ref.bad), 'an impossible layout is accepted')
        ctx.require_bytes(asm.assembled_bytes, want, 'bytes are laid out wrongly')
        for n in names:
            ctx.require(asm.get_label_absolute_address_by_name(n) == ref.labels[n], 'a label has the wrong address')
    else:
        ctx.require(ref.bad, 'a valid layout is refused', detail=repr(r))


def bad_operands(ctx, d, n):
    """layout directives refuse names and missing or surplus operands, and never guess"""
    asm = Model()
    name = ctx.chars('name', n, 'ghzGHZ_')
    form = ctx.choice('form', ['name', 'second', 'none', 'many'])
    two = d in ('.org', '.fill', '.goto', '.upto')
    if form == 'name':
        src = d + ' ' + name
    elif form == 'second':
        ctx.assume(two)
        src = d + ' 4 ' + name
    elif form == 'none':
        src = d
    else:
        src = d + ' 4 5 6' if two else d + ' 4 5'
    st, r = run(ctx, asm, '.db 1\n' + src + '\n.db 2')
    ctx.require(st == 'err', 'a malformed directive is accepted')
    ctx.require(r == 'InvalidArgumentsForDirective', 'a malformed directive is not reported as such')


def unbalanced(ctx, form):
    asm = Model()
    src = {'nested': '.repeat 2\n.repeat 2\n.db 1\n.endrepeat\n.endrepeat', 'end': '.db 1\n.endrepeat',
           'again': '.repeat 2\n.db 1\n.endrepeat\n.endrepeat'}[form]
    t, v = hexlit(ctx, 'v', 2)
    st, r = run(ctx, asm, '.db ' + t + '\n' + src)
    ctx.require(st == 'err' and r in ('UnsupportedNestedRepeat', 'NotInRepeatMode'), 'unbalanced .repeat is accepted')


def case(ops, an=3, sn=2, head=True, **more):
    return {'fn': 'harness.layout:program', 'params': dict(ops=ops, an=an, sn=sn, head=head, **more), 'cost': len(ops)}


def cases_org(tier):
    out = []
    deep = tier != 'quick'
    for ops in ('O', 'B', 'DB', 'OD', 'BD', 'BF', 'BG', 'OO', 'OB', 'BO', 'BB', 'FO', 'FB', 'BDO', 'BDB', 'BFO', 'BFB', 'ODO',
                'ODB', 'OFB', 'BBD', 'BDBD', 'BFBF', 'BFOF', 'OFOF', 'OFBF', 'BWBDO', 'BRB', 'BRO', 'BXO', 'BXB', 'BYO',
                'OXB', 'BDBDB'):
        for an in ((2, 4) if not deep else (2, 3, 4, 6, 8)):
            if an >= 6 and ('X' in ops or 'Y' in ops):
                continue
            if an > 2 and not deep and (ops.count('F') > 1 or len(ops) > 4):
                continue
            sn = 1 if ops.count('F') > 1 else 2
            out.append(case(ops, an, sn))
            out.append(case(ops, an, sn, head=False))
    for ops in ('BD', 'BDO', 'BDB', 'OFO'):
        out.append(case(ops, 2, 1, preset=False))
    if deep:
        for a in 'OB':
            for b in 'DFRXT':
                for c in 'OB':
                    for d in 'DFRXT':
                        for e in 'OB':
                            out.append(case(a + b + c + d + e, 3, 2))
    return out


def cases_move(tier):
    out = []
    deep = tier != 'quick'
    one = 'FGATtUuRPQ'
    for a in one:
        for pre in ('', 'O', 'D', 'OD', 'OR', 'B'):
            out.append(case(pre + a, 3, 2))
    for a in one:
        for b in one:
            out.append(case('O' + a + b, 3, 2))
            if deep:
                out.append(case(a + b, 4, 3))
                out.append(case('B' + a + b, 3, 2))
                for c in one:
                    out.append(case('O' + a + b + c, 3, 2))
    # reservations in repeated blocks
    for ops in ('S', 's', 'OS', 'Os', 'OSX', 'OsY', 'DSR', 'OsQ', 'ODsX') + (('OSs', 'OsS', 'OSQX', 'BsX', 'OSDY', 'OFS', 'OSA') if deep else ()):
        out.append(case(ops, 3, 2))
    for a in 'FGATtUuR':
        out.append(case('OD' + a, 2, 2, preset=False))
    # large operands
    for ops in ('FA', 'OFA', 'RA', 'ORA', 'FU', 'OFU', 'RT', 'ORT', 'OGT'):
        out.append(case(ops, 4 if deep else 2, 3, head=False))
    for ops in ('R', 'OR', 'RX', 'RR', 'RXO', 'ORY'):
        for sn in (5, 6):
            out.append(case(ops, 4, sn))
    for d in ('.org', '.fill', '.goto', '.upto', '.ram', '.align', '.repeat'):
        for n in (1, 2):
            out.append({'fn': 'harness.layout:bad_operands', 'params': dict(d=d, n=n)})
    for f in ('nested', 'end', 'again'):
        out.append({'fn': 'harness.layout:unbalanced', 'params': dict(form=f)})
    return out


def cases_program(tier):
    out = []
    deep = tier != 'quick'
    al = 'ODFATRPQXY'
    for a in al:
        for b in 'XYQ':
            for c in al:
                out.append(case(a + b + c, 3, 1))
    # origins inside, at the end of and after bounded regions that are full, partly full or empty
    for a in ('B', 'BD') + (('BR', 'BX', 'BY', 'BF') if deep else ()):
        for b in 'OB':
            for c in ('X', 'Y', 'R') + (('D', 'A', 'DX', 'RY', 'Q') if deep else ()):
                out.append(case(a + b + c, 2, 1))
    for a in 'RFO':
        for b in 'XYRO':
            for sn in (3, 5):
                if 'F' not in a + b or sn < 4:
                    out.append(case(a + b + 'X', 5, sn))
    if deep:
        for a in al:
            for b in al:
                for c in al:
                    for d in 'XYQD':
                        out.append(case(a + b + c + d, 3, 1))
    return out
