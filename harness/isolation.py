"""Assemblers are independent of each other, and what they produce depends on their own source only."""
from necroassembler import Assembler, opcode
from necroassembler.cpu.mos6502 import AssemblerMOS6502
from necroassembler.cpu.z80 import AssemblerZ80
from necroassembler.platforms.gameboy import AssemblerGameboy
from necroassembler.platforms.nes import AssemblerNES
from necroassembler.platforms.sms import AssemblerSegaMasterSystem
from harness.lib import number


class One(Assembler):
    hex_prefixes = ('0x', '$')
    fill_value = 0x11
    defines = {'DEF': '0x21'}

    def register_instructions(self):
        self.register_instruction('NOP', b'\x01')


class Two(Assembler):
    hex_prefixes = ('$', '0x')
    big_endian = True
    case_sensitive = True

    @opcode('NOP')
    def nop(self, instr):
        return b'\x02'


class Child(One):
    fill_value = 0x33

    def register_defines(self):
        self.register_define('DEF2', '$44')


KINDS = {'one': One, 'two': Two, 'child': Child, '6502': AssemblerMOS6502, 'z80': AssemblerZ80, 'gb': AssemblerGameboy,
         'nes': AssemblerNES, 'sms': AssemblerSegaMasterSystem}

# every source leaves as much state behind as it can; {v} {w} are the values
SOURCES = {
    'define': ['.define K $V\n.define L K\n', '.db K L\n'],
    'redefine': ['.define K $V\n', '.define K $W\n.db K\n'],
    'use': ['.db $V\n', '.db K\n'],
    'usedef': ['.db DEF\n', '.db $V\n'],
    'usedef2': ['.db $V\n', '.db DEF2\n'],
    'builtin': ['.define RAM $V\n.define VRAM $W\n', '.db RAM VRAM PPUCTRL\n'],
    'usebuiltin': ['.dw RAM\n', '.dw $W\n'],
    'macro': ['.macro mm p\n.db p $W\n.endmacro\n', 'mm $V\nNOP\n'],
    'openmacro': ['.macro mm p\n.db p\n', '.db $V\n'],
    'usemacro': ['.db $W\n', 'mm $V\n'],
    'label': ['lab: .db $V\n', '.db lab 0\n'],
    'uselabel': ['.db $V\n', '.dw lab\n'],
    'org': ['.org $V\n.db $W\n', '.dw here\nhere:\n'],
    'region': ['.org $V $ff\n.db $W\n', '.db 1\n'],
    'fill': ['.align 4\n.db $V\n.align 4\n', '.fill 3\n.db $W\n'],
    'repeat': ['.repeat 3\n.db $V\n.endrepeat\n', '.db $W\n'],
    'openrepeat': ['.repeat 3\n.db $V\n', '.db $W\n'],
    'endrepeat': ['.db $V\n', '.endrepeat\n'],
    'section': ['.section tt RW $V\n.db $W\n', 'sym: .db 1\n.export sym\n'],
    'nop': ['NOP\nnop\n', 'nop\n'],
    'cart': ['.fill $V\n.cartridge\n.db $W\n', '.cartridge_type $V\n.cartridge_prg_roms $W\n'],
    'cart100': ['.fill 256\n.cartridge\n', '.cartridge_title "A"\n.cartridge_type $V\n'],
    'cart0': ['.cartridge\n.db $V\n', '.cartridge_prg_roms $W\n'],
    'field': ['.fill 512\n.db $V\n', '.cartridge_type $W\n'],
    'bank': ['.fill 512\n.db $V\n', '.cartridge_chr_roms $W\n'],
    'exports': ['lab: .export lab\n', 'sym: .db $V\n.export sym\n'],
    'log': ['.log off\n.db $V\n', '.db $W\n'],
}


def summary(asm):
    labels = [(k, asm.get_label_absolute_address_by_name(k)) for k in asm.labels]
    return (bytes(asm.assembled_bytes), labels, [(k, asm.sections[k]) for k in asm.sections], list(asm.exports))


def act(ctx, asm, parts, i):
    """-> the exception, or None"""
    try:
        if i < len(parts):
            asm.assemble(parts[i])
        else:
            asm.link()
    except Exception as e:
        return type(e).__name__
    return None


def fill(parts, v, w):
    out = []
    for p in parts:
        t = ''
        for piece in p.split('$'):
            if piece[:1] == 'V':
                t = t + '$' + v + piece[1:]
            elif piece[:1] == 'W':
                t = t + '$' + w + piece[1:]
            elif t == '' and p[:1] != '$':
                t = piece
            else:
                t = t + '$' + piece
        out.append(t)
    return out


def same(ctx, a, b, msg):
    ctx.require_bytes(a[0], b[0], msg + ': bytes')
    ctx.require(len(a[1]) == len(b[1]), msg + ': labels')
    for (k1, v1), (k2, v2) in zip(a[1], b[1]):
        ctx.require(ctx.and_(k1 == k2, v1 == v2), msg + ': labels')
    ctx.require(len(a[2]) == len(b[2]), msg + ': sections')
    for (k1, s1), (k2, s2) in zip(a[2], b[2]):
        ctx.require(k1 == k2, msg + ': sections')
        for f in s2:
            ctx.require(s1[f] == s2[f], msg + ': sections')
    ctx.require(a[3] == b[3], msg + ': exports')


def solo(ctx, kind, parts):
    asm = KINDS[kind]()
    errs = []
    for i in range(len(parts) + 1):
        e = act(ctx, asm, parts, i)
        errs.append(e)
        if e is not None:
            break
    ctx.observe('outcome', str(errs[-1]) if errs[-1] else 'ok')
    return asm, errs


def interleave(ctx, kind, src, other, osrc):
    """two assemblers used at the same time behave like each one alone, in every interleaving of their steps"""
    v, _ = number(ctx, 'v', 2, 16)
    w, _ = number(ctx, 'w', 2, 16)
    x, _ = number(ctx, 'x', 2, 16)
    y, _ = number(ctx, 'y', 2, 16)
    pa = fill(SOURCES[src], v, w)
    pb = fill(SOURCES[osrc], x, y)
    a0, ea = solo(ctx, kind, pa)
    sa = summary(a0)
    ctx.fresh()
    # -1: construct
    ia = ib = -1
    a = b = None
    da = db = False
    errs = []
    errb = []
    while not da or not db:
        if da:
            who = 1
        elif db:
            who = 0
        else:
            who = ctx.index('s%d' % (ia + ib + 2), 2)
        if who == 0:
            if ia < 0:
                a = KINDS[kind]()
            else:
                e = act(ctx, a, pa, ia)
                errs.append(e)
                da = e is not None or ia == len(pa)
            ia += 1
        else:
            if ib < 0:
                b = KINDS[other]()
            else:
                e = act(ctx, b, pb, ib)
                errb.append(e)
                db = e is not None or ib == len(pb)
            ib += 1
    ctx.require(errs == ea, 'an assembler is disturbed by another one: outcome', detail=repr((errs, ea)))
    same(ctx, summary(a), sa, 'an assembler is disturbed by another one')
    # and a fresh one still behaves the same
    c, ec = solo(ctx, kind, pa)
    ctx.require(ec == ea, 'an assembler is disturbed by the previous ones: outcome', detail=repr((ec, ea)))
    same(ctx, summary(c), sa, 'an assembler is disturbed by the previous ones')


def chunks(ctx, kind, src):
    """assembling a source in two calls is the same as assembling it in one"""
    v, _ = number(ctx, 'v', 2, 16)
    w, _ = number(ctx, 'w', 2, 16)
    p = fill(SOURCES[src], v, w)
    a, ea = solo(ctx, kind, p)
    ctx.fresh()
    b, eb = solo(ctx, kind, [p[0] + p[1]])
    ctx.require(ea[-1] == eb[-1], 'assembling in two steps has another outcome', detail=repr((ea, eb)))
    if ea[-1] is None:
        same(ctx, summary(a), summary(b), 'assembling in two steps gives another result')


def case(fn, **p):
    return {'fn': 'harness.isolation:' + fn, 'params': p}


def cases(tier):
    out = []
    deep = tier != 'quick'
    pairs = [('define', 'use'), ('use', 'define'), ('redefine', 'define'), ('usedef', 'builtin'), ('builtin', 'usebuiltin'),
             ('usebuiltin', 'builtin'), ('macro', 'usemacro'), ('usemacro', 'macro'), ('nop', 'openmacro'), ('label', 'uselabel'),
             ('uselabel', 'label'), ('label', 'label'), ('org', 'region'), ('region', 'org'), ('fill', 'org'), ('repeat', 'openrepeat'),
             ('endrepeat', 'openrepeat'), ('openrepeat', 'endrepeat'), ('section', 'section'), ('nop', 'nop'), ('log', 'fill'),
             ('usedef2', 'define'), ('org', 'label')]
    kinds = [('one', 'one'), ('one', 'two'), ('two', 'child'), ('child', 'one'), ('gb', 'gb'), ('nes', 'sms'), ('6502', 'nes'),
             ('z80', 'sms'), ('6502', 'z80'), ('two', 'two')]
    if deep:
        names = sorted(SOURCES)
        pairs = [(a, b) for a in names for b in names]
        kinds = kinds + [('sms', 'z80'), ('sms', 'sms'), ('nes', '6502'), ('gb', 'one')]
    for k, o in kinds:
        for a, b in pairs:
            out.append(case('interleave', kind=k, src=a, other=o, osrc=b))
    for a, b, k, o in (('field', 'cart100', 'gb', 'gb'), ('cart100', 'field', 'gb', 'gb'), ('bank', 'cart0', 'nes', 'nes'),
                       ('cart0', 'bank', 'nes', 'nes'), ('cart', 'cart', 'gb', 'nes'), ('cart0', 'field', 'nes', 'gb'),
                       ('bank', 'cart100', 'nes', 'gb'), ('cart', 'cart0', 'nes', 'nes'), ('cart100', 'cart100', 'gb', 'gb'),
                       ('exports', 'exports', 'one', 'child'), ('exports', 'exports', '6502', 'two'), ('section', 'exports', 'gb', 'gb')):
        out.append(case('interleave', kind=k, src=a, other=o, osrc=b))
    for k in sorted(KINDS):
        for s in sorted(SOURCES):
            # the end of a source pads the current region
            if s not in ('region',):
                out.append(case('chunks', kind=k, src=s))
    return out
