"""The command line: sources are assembled in order into one image, which is written to the destination."""
from necroassembler import Assembler, pre_link, post_link
from necroassembler.cpu.mos6502 import AssemblerMOS6502
from necroassembler.cpu.z80 import AssemblerZ80
from necroassembler.cpu.lr35902 import AssemblerLR35902
from necroassembler.cpu.intel8086 import AssemblerIntel8086
from necroassembler.cpu.mips32 import AssemblerMIPS32
from necroassembler.cpu.thumb import AssemblerThumb
from necroassembler.cpu.mc68000 import AssemblerMC68000
from necroassembler.cpu.powerpc import AssemblerPowerPC
from necroassembler.platforms.sms import AssemblerSegaMasterSystem
from necroassembler.linker import ELF
from harness.lib import number


class Plain(Assembler):
    hex_prefixes = ('0x',)


class Passes(Assembler):
    hex_prefixes = ('0x',)
    extra = 0

    @pre_link
    def first(self):
        self.append_assembled_bytes(b'\xE1')

    @post_link
    def last(self):
        self.assembled_bytes[0] = (self.assembled_bytes[0] + self.assembled_bytes[-1]) & 0xff


KINDS = {'plain': Plain, '6502': AssemblerMOS6502, 'z80': AssemblerZ80, 'lr35902': AssemblerLR35902, '8086': AssemblerIntel8086,
         'mips32': AssemblerMIPS32, 'thumb': AssemblerThumb, '68000': AssemblerMC68000, 'powerpc': AssemblerPowerPC,
         'sms': AssemblerSegaMasterSystem}


def exists(ctx, name):
    try:
        ctx.read_file(name)
    except Exception:
        return False
    return True


def sources(ctx, kind, n):
    out = []
    vals = []
    for i in range(n):
        t, v = number(ctx, 'v%d' % i, 2, 10)
        out.append('lab%d:\n.db %s\n.db lab%d\n' % (i, t, n - 1 - i) if isinstance(t, str) else
                   'lab' + str(i) + ':\n.db ' + t + '\n.db lab' + str(n - 1 - i) + '\n')
        vals.append(v)
    return out, vals


def main(ctx, kind, n):
    """the destination holds the sources one after the other, with labels shared between them"""
    srcs, vals = sources(ctx, kind, n)
    for i in range(n):
        ctx.file('s%d.S' % i, srcs[i])
    argv = ['necro'] + ['s%d.S' % i for i in range(n)] + ['out.bin']
    st, r = ctx.attempt(lambda: ctx.run_main(KINDS[kind].main, argv))
    ctx.require(st == 'ok', 'the command line fails', detail=repr(r))
    want = b''
    for i in range(n):
        want = want + bytes([vals[i], 2 * (n - 1 - i)])
    ctx.require_bytes(ctx.read_file('out.bin'), want, 'the destination is wrong')
    for i in range(n):
        ctx.require_bytes(ctx.read_file('s%d.S' % i), srcs[i].encode(), 'a source is changed')


def named(ctx, names):
    """sources are taken in the order given, whatever their names"""
    src = {}
    want = b''
    for i, nm in enumerate(names):
        if nm not in src:
            t, v = number(ctx, 'v%d' % i, 2, 10)
            src[nm] = ('.db ' + t + '\n', v)
            ctx.file(nm, src[nm][0])
        want = want + bytes([src[nm][1]])
    st, r = ctx.attempt(lambda: ctx.run_main(Plain.main, ['necro'] + list(names) + ['out.bin']))
    ctx.require(st == 'ok', 'the command line fails', detail=repr(r))
    ctx.require_bytes(ctx.read_file('out.bin'), want, 'the destination is wrong')


def split(ctx, at):
    """state (definitions, macros, origin, repetition) carries from one source to the next as in one program"""
    t, v = number(ctx, 'v', 2, 10)
    u, w = number(ctx, 'u', 2, 10)
    lines = ['.define two ' + t, '.macro mac p', '.db p, two', '.endmacro', '.org ' + u, 'first: mac 7', '.dw first', 'mac last',
             '.dw first, last', 'last: .db ' + u]
    ctx.assume(w < 70)
    want = bytes([7, v, w, 0, w + 10, v, w, 0, w + 10, 0, w])
    text = ['', '']
    for i in range(len(lines)):
        k = 0 if i < at else 1
        text[k] = text[k] + lines[i] + '\n'
    ctx.file('z.S', text[0])
    ctx.file('y.S', text[1])
    st, r = ctx.attempt(lambda: ctx.run_main(Plain.main, ['necro', 'z.S', 'y.S', 'out.bin']))
    ctx.require(st == 'ok', 'the command line fails', detail=repr(r))
    ctx.require_bytes(ctx.read_file('out.bin'), want, 'the destination is wrong')


def usage(ctx, kind):
    """without a source and a destination nothing is read or written"""
    t, v = number(ctx, 'v', 2, 10)
    src = '.db ' + t + '\n'
    ctx.file('a.S', src)
    for argv in (['necro'], ['necro', 'a.S'], ['necro', 'none.S']):
        (st, r), lines = ctx.printed(lambda: ctx.attempt(lambda: ctx.run_main(KINDS[kind].main, argv)))
        ctx.require(st == 'ok' and len(lines) == 1, 'no usage line', detail=repr((r, lines)))
    ctx.require_bytes(ctx.read_file('a.S'), src.encode(), 'a source is changed')
    ctx.require(not exists(ctx, 'none.S'), 'a file is written without any source')


def failing(ctx, kind, how):
    """nothing is written when a source is refused"""
    t, v = number(ctx, 'v', 3, 10)
    ctx.file('a.S', '.db 1\n')
    bad = {'range': '.db ' + t, 'label': '.db ' + t + '\n.db nowhere', 'directive': '.nonesuch ' + t, 'instruction': 'NONESUCH ' + t,
           'missing': '.db 1'}[how]
    if how != 'missing':
        ctx.file('b.S', bad + '\n')
    st, r = ctx.attempt(lambda: ctx.run_main(KINDS[kind].main, ['necro', 'a.S', 'b.S', 'out.bin']))
    if how == 'range':
        ctx.require((v < 256) if st == 'ok' else (v >= 256), 'the outcome of the command line is wrong')
    else:
        ctx.require(st == 'err', 'a wrong source is accepted')
    ctx.require(exists(ctx, 'out.bin') == (st == 'ok'), 'the destination is written although the source is refused'
                if st != 'ok' else 'the destination is not written')


def keeps(ctx, kind):
    """an earlier destination survives a refused source"""
    t, v = number(ctx, 'v', 3, 10)
    ctx.file('out.bin', b'old')
    ctx.file('a.S', '.db 7 ' + t + '\n')
    st, r = ctx.attempt(lambda: ctx.run_main(KINDS[kind].main, ['necro', 'a.S', 'out.bin']))
    if st == 'ok':
        ctx.require_bytes(ctx.read_file('out.bin'), bytes([7, v & 0xff]), 'the destination is wrong')
        ctx.require(v < 256, 'a value out of range is accepted')
    else:
        ctx.require_bytes(ctx.read_file('out.bin'), b'old', 'the destination is lost although the source is refused')


def passes(ctx, how):
    """passes before and after the resolution of labels run once each, in order, the ones given to main last"""
    t, v = number(ctx, 'v', 2, 10)
    order = []

    def pre(asm):
        order.append('pre')
        # labels are not resolved yet
        order.append(asm.assembled_bytes[1])
        asm.append_assembled_bytes(b'\xE2')

    def post(asm):
        order.append('post')
        order.append(asm.assembled_bytes[1])
        asm.assembled_bytes[1] = 0xE3
    src = '.db ' + t + ' lab\nlab:\n'
    ctx.file('a.S', src)
    if how == 'main':
        st, r = ctx.attempt(lambda: ctx.run_main(lambda: Passes.main(pre_link_passes=[pre], post_link_passes=[post]),
                                                 ['necro', 'a.S', 'out.bin']))
        ctx.require(st == 'ok', 'passes fail', detail=repr(r))
        got = ctx.read_file('out.bin')
    else:
        a = Passes()
        a.pre_link_passes.append(pre)
        a.post_link_passes.append(post)

        def go():
            a.assemble_file('a.S')
            a.link()
            a.save('out.bin')
        st, r = ctx.attempt(go)
        ctx.require(st == 'ok', 'passes fail', detail=repr(r))
        got = ctx.read_file('out.bin')
        ctx.require_bytes(a.assembled_bytes, got, 'save writes other bytes')
    ctx.require_bytes(got, bytes([(v + 0xE2) & 0xff, 0xE3, 0xE1, 0xE2]), 'passes are lost or run in another order')
    ctx.require(order[0] == 'pre' and order[2] == 'post' and len(order) == 4, 'passes run in another order')
    ctx.require(ctx.and_(order[1] == 0, order[3] == 2), 'passes run at another time')
    # the next assembler does not inherit the passes
    ctx.file('b.S', '.db ' + t + ' 4\n')
    st, r = ctx.attempt(lambda: ctx.run_main(Passes.main, ['necro', 'b.S', 'out2.bin']))
    ctx.require(st == 'ok', 'passes fail', detail=repr(r))
    ctx.require_bytes(ctx.read_file('out2.bin'), bytes([(v + 0xE1) & 0xff, 4, 0xE1]), 'passes leak to another assembler')


def passes_again(ctx, give, times, several=False, bound=False):
    """every run has the passes of its class, then those it is given, once each: no run inherits those of another"""
    order = []

    class Own(Assembler):
        hex_prefixes = ('0x',)

        @pre_link
        def a(self):
            order.append('a')

        @post_link
        def z(self):
            order.append('z')
    own = (['a'], ['z'])
    if several:
        class Own(Own):
            @post_link
            def x(self):
                order.append('x')

            @pre_link
            def b(self):
                order.append('b')

            @pre_link
            @post_link
            def m(self):
                order.append('m')
        own = (['a', 'b', 'm'], ['m', 'x', 'z'])

    def pre(asm):
        order.append('pre')

    def post(asm):
        order.append('post')

    class Tool:
        # passes which are methods of something else than the assembler
        def pre(self, asm):
            order.append('pre')
            self.seen = asm

        def post(self, asm):
            order.append('post')
    if bound:
        tool = Tool()
        pre, post = tool.pre, tool.post
    given = {'none': {}, 'pre': {'pre_link_passes': [pre]}, 'post': {'post_link_passes': [post]},
             'both': {'pre_link_passes': [pre], 'post_link_passes': [post]}}[give]
    want = [own[0], ['pre'] if give in ('pre', 'both') else [], own[1], ['post'] if give in ('post', 'both') else []]
    t, v = number(ctx, 'v', 2, 10)
    ctx.file('a.S', '.db ' + t + '\n')
    for i in range(times):
        kw = given if i != 1 else {}
        st, r = ctx.attempt(lambda: ctx.run_main(lambda: Own.main(**kw), ['necro', 'a.S', 'out%d.bin' % i]))
        ctx.require(st == 'ok', 'passes fail', detail=repr(r))
        # the passes of the class in any order
        pos = 0
        for part in want if i != 1 else own:
            ctx.require(sorted(order[pos:pos + len(part)]) == part, 'passes are lost, repeated or run in another order', detail=repr(order))
            pos += len(part)
        ctx.require(len(order) == pos, 'passes are lost, repeated or run in another order', detail=repr(order))
        ctx.require_bytes(ctx.read_file('out%d.bin' % i), bytes([v]), 'the destination is wrong')
        order.clear()


def linked(ctx, bits, big):
    """main with a linker writes what the linker makes"""
    t, v = number(ctx, 'v', 2, 10)
    ctx.file('a.S', '.section .text RX\nlab: .db ' + t + '\n.export lab\n')
    st, r = ctx.attempt(lambda: ctx.run_main(lambda: Plain.main(linker=ELF(bits, big, 1, 3)), ['necro', 'a.S', 'out.o']))
    ctx.require(st == 'ok', 'the linker fails', detail=repr(r))
    a = Plain()
    a.assemble('.section .text RX\nlab: .db ' + t + '\n.export lab\n')
    a.link(ELF(bits, big, 1, 3))
    ctx.require_bytes(ctx.read_file('out.o'), a.assembled_bytes, 'the destination is not what the linker makes')
    got = ctx.read_file('out.o')
    ctx.require(ctx.bytes_eq(got[:4], b'\x7fELF'), 'not an ELF object')


def case(fn, **p):
    return {'fn': 'harness.cli:' + fn, 'params': p}


def cases(tier):
    deep = tier != 'quick'
    out = []
    for k in sorted(KINDS):
        for n in (1, 2, 3) + ((5,) if deep else ()):
            out.append(case('main', kind=k, n=n))
        for h in ('range', 'label', 'directive', 'instruction', 'missing'):
            out.append(case('failing', kind=k, how=h))
        out.append(case('keeps', kind=k))
        out.append(case('usage', kind=k))
    for names in (['b.S', 'a.S'], ['c.S', 'a.S', 'b.S'], ['a.S', 'a.S'], ['b.S', 'a.S', 'b.S'], ['B.S', 'a.S', 'C'], ['x', 'x.S', 'x.S.S'],
                  ['2.S', '10.S', '1.S', '3.S'], ['z.asm', 'y.inc', 'x.bin', 'w']):
        out.append(case('named', names=names))
    for at in range(1, 10):
        out.append(case('split', at=at))
    for h in ('main', 'api'):
        out.append(case('passes', how=h))
    for g in ('none', 'pre', 'post', 'both'):
        for n in (1, 2, 3) + ((6,) if deep else ()):
            out.append(case('passes_again', give=g, times=n))
            out.append(case('passes_again', give=g, times=n, several=True))
    for g in ('pre', 'post', 'both'):
        out.append(case('passes_again', give=g, times=3, bound=True))
    for b in (32, 64):
        for g in (False, True):
            out.append(case('linked', bits=b, big=g))
    return out
