"""Console images: headers, checksums, tile formats, debug symbols."""
from necroassembler.platforms.gameboy import AssemblerGameboy
from necroassembler.platforms.nes import AssemblerNES
from necroassembler.platforms import nes, gba, genesis, psx
from necroassembler.platforms.sms import AssemblerSegaMasterSystem
from harness.lib import number, run, le

LOGO = bytes.fromhex('CEED6666CC0D000B03730083000C000D0008111F8889000EDCCC6EE6DDDDD999BBBB67636E0EECCCDDDC999FBBB9333E')
TEXT = ''.join([chr(c) for c in range(32, 127) if chr(c) not in '"\\'])


# ---------------------------------------------------------------- Gameboy

def hx(ctx, name, n=2):
    t, v = number(ctx, name, n, 16)
    return '$' + t, v


def image(ctx, out, want, skip):
    """the bytes of an image, as wanted except at the places to skip (the checksums, to be checked against the others)"""
    ctx.require(len(out) == len(want), 'the image has the wrong size')
    out = list(out)
    ctx.require(ctx.and_(*[out[i] == want[i] for i in range(len(want)) if i not in skip]), 'the image is wrong')
    return out


def gb_rom(ctx, size, fill, body, title, extra):
    """a complete rom, with any fill value, any bytes before and after the header and any header fields"""
    asm = AssemblerGameboy()
    f, fv = hx(ctx, 'fill') if fill else ('$00', 0)
    want = [fv] * (size if size else 0x150 + body)
    src = '.org $0000 $%x\n' % (size - 1) if size else ''
    t, v = hx(ctx, 'rst')
    src = src + '.db ' + t + '\n.goto $100 ' + f + '\n.cartridge\n'
    want[0:0x100] = [v] + [fv] * 0xff
    head = [0x00, 0xC3, 0x50, 0x01] + list(LOGO) + [0] * 16 + [0, 0, 0, 0, 0, 0, 1, 0x33, 0, 0, 0, 0]
    want[0x100:0x150] = head
    if title is not None:
        s = ctx.chars('title', title, TEXT)
        src = src + '.cartridge_title "' + s + '"\n'
        for i, c in enumerate(s):
            want[0x134 + i] = ord(c)
    for name, at, n in (('license', 0x144, 2), ('cgb', 0x143, 1), ('sgb', 0x146, 1), ('type', 0x147, 1), ('destination', 0x14a, 1)):
        if name in extra:
            src = src + '.cartridge_' + name
            for i in range(n):
                t, v = hx(ctx, name + str(i))
                src = src + ' ' + t
                want[at + i] = v
            src = src + '\n'
    for i in range(body):
        t, v = hx(ctx, 'b%d' % i)
        src = src + '.db ' + t + '\n'
        want[0x150 + i] = v
    if size:
        # bounded regions are padded with the fill value of the assembler
        for i in range(0x150 + body, size):
            want[i] = 0
    st, r = run(ctx, asm, src)
    ctx.require(st == 'ok', 'a rom is refused', detail=repr(r))
    out = image(ctx, asm.assembled_bytes, want, (0x14d, 0x14e, 0x14f))
    x = 0
    for i in range(0x134, 0x14d):
        x = x - out[i] - 1
    ctx.require(out[0x14d] == x & 0xff, 'the header checksum is wrong')
    s = 0
    for i in range(len(want)):
        if i not in (0x14e, 0x14f):
            s = s + out[i]
    ctx.require(ctx.and_(out[0x14e] == (s >> 8) & 0xff, out[0x14f] == s & 0xff), 'the global checksum is wrong')


def gb_again(ctx, how):
    """linking once more leaves the image as it is: no checksum depends on itself"""
    asm = AssemblerGameboy()
    t, v = hx(ctx, 'v')
    u, w = hx(ctx, 'w')
    st, r = run(ctx, asm, '.fill $100\n.cartridge\n.cartridge_type ' + t + '\n.db ' + u + '\nl: .dw l\n')
    ctx.require(st == 'ok', 'a rom is refused', detail=repr(r))
    first = bytes(asm.assembled_bytes)
    if how == 'changed':
        st, r = ctx.attempt(asm.assemble, '.db ' + t + '\n')
        ctx.require(st == 'ok', 'a rom is refused', detail=repr(r))
    st, r = ctx.attempt(asm.link)
    ctx.require(st == 'ok', 'a rom is refused', detail=repr(r))
    out = list(asm.assembled_bytes)
    if how == 'same':
        ctx.require_bytes(asm.assembled_bytes, first, 'linking again changes an image')
    s = 0
    for i in range(len(out)):
        if i not in (0x14e, 0x14f):
            s = s + out[i]
    ctx.require(ctx.and_(out[0x14e] == (s >> 8) & 0xff, out[0x14f] == s & 0xff), 'the global checksum is wrong')


def gb_overlong(ctx, field, n):
    """header fields never overrun their neighbours"""
    asm = AssemblerGameboy()
    size = {'title': 16, 'license': 2, 'cgb': 1, 'sgb': 1, 'type': 1, 'destination': 1}[field]
    at = {'title': 0x134, 'license': 0x144, 'cgb': 0x143, 'sgb': 0x146, 'type': 0x147, 'destination': 0x14a}[field]
    src = '.fill $100\n.cartridge\n'
    vals = []
    line = '.cartridge_' + field
    for i in range(n):
        t, v = hx(ctx, 'v%d' % i, 3 if i == 0 else 2)
        line = line + ' ' + t
        vals.append(v)
    st, r = run(ctx, asm, src + line + '\n.db 1\n')
    good = ctx.and_(vals[0] < 256, n <= size) if n else False
    ctx.require(good if st == 'ok' else ctx.not_(good), 'a header field that does not fit is accepted' if st == 'ok' else
                'a header field that fits is refused')
    if st == 'ok':
        got = asm.assembled_bytes
        plain = AssemblerGameboy()
        run(ctx, plain, src + '.db 1\n')
        want = bytes(plain.assembled_bytes)
        ctx.require_bytes(got[at:at + n], bytes([v & 0xff for v in vals]), 'a header field is wrong')
        ctx.require(ctx.and_(ctx.bytes_eq(got[:at], want[:at]), ctx.bytes_eq(got[at + n:0x14d], want[at + n:0x14d]),
                             ctx.bytes_eq(got[0x150:], want[0x150:])), 'a header field overwrites something else')


def gb_place(ctx, n):
    """the header can only be placed at $100, and its fields only after it"""
    t, v = number(ctx, 'v', n, 16)
    asm = AssemblerGameboy()
    st, r = run(ctx, asm, '.fill $' + t + ' $aa\n.cartridge\n', link=False)
    ctx.require((v == 0x100) if st == 'ok' else (v != 0x100), 'the header is misplaced' if st == 'ok' else 'the header is refused')
    if st == 'err':
        ctx.require(r == 'InvalidCartidgeHeaderOffset', 'the wrong error')
    else:
        ctx.require(len(asm.assembled_bytes) == 0x150, 'the header has the wrong size')
    b = AssemblerGameboy()
    f = ctx.choice('f', ['title', 'license', 'cgb', 'sgb', 'type', 'destination'])
    st, r = run(ctx, b, '.fill $200\n.cartridge_' + f + ' $' + t[:2] + '\n', link=False)
    ctx.require(st == 'err' and r == 'CartidgeHeaderNotSet', 'a header field without a header is accepted')


def gb_origin(ctx, form):
    """the header is at offset $100 of the output, whatever the addresses are; its code is at address $150"""
    asm = AssemblerGameboy()
    t, v = number(ctx, 'v', 3, 16)
    src, off = {'org': ('.org $' + t + '\n', 0), 'fill': ('.org $' + t + '\n.fill $100\n', 0x100), 'ram': ('.ram $1' + t + '\n.fill $100\n', 0x100),
                'ramonly': ('.ram $1' + t + '\n', 0), 'back': ('.fill $80\n.org $' + t + '\n.fill $80\n', 0x100),
                'near': ('.org $' + t + '\n.fill $ff\n', 0xff), 'two': ('.fill $100\n.org $' + t + '\n.db 1\n', 0x101)}[form]
    st, r = run(ctx, asm, src + '.cartridge\nstart: .dw start\n', link=False)
    ctx.require((st == 'ok') == (off == 0x100), 'the header is misplaced' if st == 'ok' else 'the header is refused', detail=repr(r))
    if st == 'ok':
        ctx.require(len(asm.assembled_bytes) == 0x152, 'the header has the wrong size')
        ctx.require(ctx.bytes_eq(asm.assembled_bytes[0x100:0x104], b'\x00\xc3\x50\x01'), 'the header is misplaced')
        ctx.require(asm.get_label_absolute_address_by_name('start') == 0x150, 'the code after the header is misplaced')


def gb_labels(ctx):
    """code after the header is at $150"""
    asm = AssemblerGameboy()
    t, v = hx(ctx, 'v')
    st, r = run(ctx, asm, '.fill $100\n.cartridge\nstart:\n.db ' + t + '\n.dw start\n')
    ctx.require(st == 'ok', 'a rom is refused', detail=repr(r))
    ctx.require(ctx.bytes_eq(asm.assembled_bytes[0x150:], bytes([v, 0x50, 0x01])), 'the code after the header is wrong')


NAMES = {'gb': {'VRAM': 0x8000, 'LCDC': 0xFF40, 'STAT': 0xFF41, 'SCY': 0xFF42, 'SCX': 0xFF43, 'LY': 0xFF44, 'LYC': 0xFF45, 'WY': 0xFF4A, 'WX': 0xFF4B,
                'TMAP0': 0x9800, 'TMAP1': 0x9C00, 'WRAM': 0xC000, 'WRAM0': 0xC000, 'WRAM1': 0xD000, 'HRAM': 0xFF80},
         'nes': {'PPUCTRL': 0x2000, 'PPUMASK': 0x2001, 'PPUSTATUS': 0x2002, 'OAMADDR': 0x2003, 'OAMDATA': 0x2004, 'PPUSCROLL': 0x2005, 'PPUADDR': 0x2006,
                 'PPUDATA': 0x2007, 'OAMDMA': 0x4014},
         'sms': {'RAM': 0xC000, 'JOY1': 0xDC, 'JOY2': 0xDD, 'PSG': 0x7F, 'VDPDATA': 0xBE, 'VDPADDR': 0xBF, 'CMD_VRAM': 0x40, 'CMD_REG': 0x80,
                 'CMD_CRAM': 0xC0}}


def names(ctx, fmt):
    """the predefined names stand for the addresses of the hardware, as a whole word with its capitals, next to any number"""
    src = ''
    want = []
    for name, value in NAMES[fmt].items():
        t, v = hx(ctx, name)
        src = src + '.dw ' + name + ' ' + t + '\n'
        want += [value & 0xff, value >> 8, v, 0]
    asm = FORMATS[fmt][0]()
    st, r = run(ctx, asm, src, link=False)
    ctx.require(st == 'ok', 'a predefined name is refused', detail=repr(r))
    ctx.require_bytes(asm.assembled_bytes, bytes(want), 'a predefined name has the wrong value')
    other = FORMATS[fmt][0]()
    name = ctx.pick('n', list(NAMES[fmt]))
    x = ctx.chars('x', 1, 'Qq_')
    st, r = run(ctx, other, '.fill $100\n' + ('.cartridge\n' if fmt == 'gb' else '') + '.dw ' + name + x + '\n')
    ctx.require(st == 'err', 'a name is taken for a predefined one', detail=repr(r))


# ---------------------------------------------------------------- tiles

def tile_gb(px):
    out = []
    for y in range(8):
        for p in range(2):
            b = 0
            for x in range(8):
                b = b | (((px[y][x] >> p) & 1) << (7 - x))
            out.append(b)
    return out


def tile_nes(px):
    out = []
    for p in range(2):
        for y in range(8):
            b = 0
            for x in range(8):
                b = b | (((px[y][x] >> p) & 1) << (7 - x))
            out.append(b)
    return out


def tile_sms(px):
    out = []
    for y in range(8):
        for p in range(4):
            b = 0
            for x in range(8):
                b = b | (((px[y][x] >> p) & 1) << (7 - x))
            out.append(b)
    return out


FORMATS = {'gb': (AssemblerGameboy, '.tiles', tile_gb, 3), 'nes': (AssemblerNES, '.chr_pattern_table', tile_nes, 3),
           'sms': (AssemblerSegaMasterSystem, '.tiles', tile_sms, 15)}


def tiles(ctx, fmt, w, h, row, col, n, step, hi):
    """tiles are emitted left to right, top to bottom; each pixel lands in its own bits; other pixels are refused"""
    cls, directive, conv, top = FORMATS[fmt]
    px = [(x * 7 + y * 3 + x // 8 + y // 8) & top for y in range(h) for x in range(w)]
    good = True
    for i in range(n):
        at = (row * w + col + i * step) % (w * h)
        v = ctx.int('p%d' % i, 0, hi)
        px[at] = v
        good = ctx.and_(good, v <= top)
    ctx.image('t.png', w, h, px)
    asm = cls()
    st, r = run(ctx, asm, '.db 1\n' + directive + ' "t.png"\n.db 2\n', link=False)
    if st == 'err':
        ctx.require(ctx.not_(good), 'an image is refused', detail=repr(r))
        ctx.require(r == 'InvalidPaletteEntry', 'the wrong error')
        return
    ctx.require(good, 'a pixel out of the palette is accepted')
    out = [1]
    for cy in range(h // 8):
        for cx in range(w // 8):
            out += conv([px[(cy * 8 + y) * w + cx * 8:(cy * 8 + y) * w + cx * 8 + 8] for y in range(8)])
    out.append(2)
    ctx.require_bytes(asm.assembled_bytes, bytes(out), 'the tiles are wrong')


def tile_size(ctx, fmt, mode, args, side=None):
    cls, directive, conv, top = FORMATS[fmt]
    good = mode == 'P' and args in ('', 't.png')
    if isinstance(side, tuple):
        w, h = side
    elif args:
        w = h = 128 if fmt == 'nes' else 8
    elif side:
        # one side is right, the other is any of the sizes around
        v = ctx.int('v', 1, 264)
        v = ctx.concrete(ctx.ite(v > 136, ctx.ite(v > 200, 256, 192), ctx.ite(v > 64, ctx.ite(v > 127, v, v & 7 | 120), ctx.ite(v > 16, v & 7 | 56, v))))
        w, h = (v, 128 if fmt == 'nes' else 8) if side == 'w' else (128 if fmt == 'nes' else 8, v)
    else:
        w = ctx.int('w', 1, 130)
        h = ctx.int('h', 1, 130)
        w = ctx.concrete(ctx.ite(w > 24, ctx.ite(w > 120, 128, w & 7 | 32), w))
        h = ctx.concrete(ctx.ite(h > 9, ctx.ite(h > 120, 128, 16), h))
    ctx.image('t.png', w, h, [0] * (w * h), mode)
    asm = cls()
    st, r = run(ctx, asm, directive + ' ' + (args or 't.png'), link=False)
    fits = w % 8 == 0 and h % 8 == 0 if fmt != 'nes' else w == 128 and h == 128
    want = 'OnlyIndexedImagesAreSupported' if mode != 'P' else 'InvalidImageSize'
    if args not in ('', 't.png'):
        want = 'InvalidArgumentsForDirective'
    good = good and fits
    ctx.require(st == 'ok' or good or r == want, 'the wrong error', detail=repr((r, want)))
    ctx.require((st == 'ok') == good, 'an image is refused' if good else 'a wrong image is accepted', detail=repr((w, h, r)))
    if st == 'ok':
        ctx.require(len(asm.assembled_bytes) == w * h // (2 if fmt == 'sms' else 4), 'the tiles have the wrong size')


# ---------------------------------------------------------------- NES

def nes_header(ctx, prg, chr_, extra):
    """the iNES header: signature, number of banks, zeroes"""
    asm = AssemblerNES()
    want = [0x4E, 0x45, 0x53, 0x1A, 2, 0] + [0] * 10
    src = '.cartridge\n'
    good = True
    n = 3 if extra == 'wide' else 2
    if prg:
        t, v = hx(ctx, 'prg', n)
        src = src + '.cartridge_prg_roms ' + t + '\n'
        want[4] = v
        good = ctx.and_(good, v < 256)
    if chr_:
        t, v = hx(ctx, 'chr', n)
        src = src + '.cartridge_chr_roms ' + t + '\n'
        want[5] = v
        good = ctx.and_(good, v < 256)
    if extra == 'two':
        t, v = hx(ctx, 'x')
        src = src + ctx.choice('two', ['.cartridge_prg_roms 1 ', '.cartridge_chr_roms 1 ']) + t
        good = False
    elif extra == 'again':
        src = src + '.cartridge\n'
        good = False
    elif extra == 'first':
        src = ctx.choice('w', ['.db 1\n', '.db 1\n.org $8000\n', '.org 0 15\n.db 1\n.org $8000\n', '.fill 16\n.org 0\n']) + src
        good = False
    elif extra == 'behind':
        # nothing emitted so far, wherever that is
        src = ctx.choice('w', ['.org $8000\n', '.ram 4\n', '.define X 1\n', 'lab:\n']) + src
    elif extra == 'without':
        src = ctx.choice('f', ['', '.fill 32\n']) + ctx.choice('w', ['.cartridge_prg_roms 1', '.cartridge_chr_roms 1'])
        good = False
    t, v = hx(ctx, 'body')
    src = src + '\n.org $8000\nstart: .db ' + t + '\n.dw start'
    st, r = run(ctx, asm, src)
    if st == 'err':
        ctx.require(ctx.not_(good), 'a header is refused', detail=repr(r))
        return
    ctx.require(good, 'a wrong header is accepted')
    ctx.require_bytes(asm.assembled_bytes, bytes([x & 0xff for x in want] + [v, 0x00, 0x80]), 'the rom is wrong')


HEXU = '0123456789ABCDEF'


def nes_main(ctx, count, n):
    """the image and its debug symbols: one line for each rom label in .0.nl, one for each ram label in .ram.nl"""
    src = '.cartridge\n'
    labels = []
    body = b''
    for i in range(count):
        t, v = number(ctx, 'o%d' % i, n, 16)
        d, dv = hx(ctx, 'd%d' % i)
        name = ctx.pick('n%d' % i, ['lab', 'x_1', 'Foo'])
        for other, ov in labels:
            ctx.assume(name != other)
        labels.append((name, v))
        src = src + '.org $' + t + '\n' + name + ':\n.db ' + d + '\n'
        body = body + bytes([dv])
    # the address of the first label, known when linking
    ref = n < 5 and bool(labels)
    if ref:
        src = src + '.org $9000\n.dw ' + labels[0][0] + '\n'
        body = body + bytes(le(labels[0][1], 2))
    ctx.file('a.S', src)
    st, r = ctx.attempt(lambda: ctx.run_main(nes.main, ['necro_nes', 'a.S', 'a.nes']))
    ctx.require(st == 'ok', 'a rom is refused', detail=repr(r))
    ctx.require_bytes(ctx.read_file('a.nes'), b'NES\x1a\x02\x00' + bytes(10) + body, 'the rom is wrong')
    for fn, lo, hi in (('a.nes.0.nl', 0x8000, 0xffff), ('a.nes.ram.nl', 0, 0x7ff)):
        got = ctx.read_file(fn)
        lines = split(ctx, got)
        k = 0
        for name, v in labels:
            inside = ctx.and_(v >= lo, v <= hi)
            if inside:
                ctx.require(k < len(lines), 'a debug symbol is lost')
                want = b'$' + bytes([hexchar(ctx, (v >> (12 - 4 * j)) & 15) for j in range(4)]) + b'#' + name.encode('ascii') + b'#'
                ctx.require(ctx.bytes_eq(lines[k], want), 'a debug symbol is wrong')
                k += 1
        ctx.require(k == len(lines), 'a debug symbol is invented')


def hexchar(ctx, d):
    return ctx.ite(d < 10, 48 + d, 55 + d)


def split(ctx, blob):
    out = []
    cur = b''
    for i in range(len(blob)):
        if blob[i] == 10:
            ctx.require(ctx.bytes_eq(cur[-1:], b'\r'), 'a line of debug symbols does not end with CR LF')
            out.append(cur[:-1])
            cur = b''
        else:
            cur = cur + blob[i:i + 1]
    ctx.require(len(cur) == 0, 'the last debug symbol is truncated')
    return out


# ---------------------------------------------------------------- GBA, Genesis, PSX

def rom_source(ctx, size, places, hexfmt, big):
    """(source, bytes): a rom of zeroes with symbolic bytes at some places; the first gap holds the address of the end"""
    want = [0] * size
    linked = False
    src = ''
    pos = 0
    for i, p in enumerate(places):
        if p >= size:
            continue
        t, v = number(ctx, 'b%d' % i, 2, 16)
        if not linked and p - pos > 8:
            linked = True
            src = src + '.dd end\n'
            want[pos:pos + 4] = le(size, 4)[::-1] if big else le(size, 4)
            pos += 4
        if p > pos:
            src = src + '.fill ' + str(p - pos) + '\n'
        src = src + '.db ' + hexfmt + t + '\n'
        want[p] = v
        pos = p + 1
    if pos < size:
        src = src + '.fill ' + str(size - pos) + '\n'
    return src + 'end:\n', want


def gba_main(ctx, size, places):
    """header complement: only byte $bd changes, and the header adds up"""
    src, want = rom_source(ctx, size, places, '0x', False)
    ctx.file('a.S', src)
    st, r = ctx.attempt(lambda: ctx.run_main(gba.main, ['necro_gba', 'a.S', 'a.gba']))
    if size < 0xbe:
        ctx.require(st == 'err', 'a rom without header is written')
        return
    ctx.require(st == 'ok', 'a rom is refused', detail=repr(r))
    s = 0
    out = image(ctx, ctx.read_file('a.gba'), want, (0xbd,))
    for i in range(0xa0, 0xbd):
        s = s + out[i]
    ctx.require(out[0xbd] == (-s - 0x19) & 0xff, 'the header complement is wrong')


def genesis_main(ctx, size, places):
    """the checksum word at $18e is the sum of the words from $200 on; nothing else changes"""
    src, want = rom_source(ctx, size, places, '$', True)
    ctx.file('a.S', src)
    st, r = ctx.attempt(lambda: ctx.run_main(genesis.main, ['necro_genesis', 'a.S', 'a.md']))
    if size < 0x190:
        ctx.require(st == 'err', 'a rom without header is written')
        return
    ctx.require(st == 'ok', 'a rom is refused', detail=repr(r))
    s = 0
    out = image(ctx, ctx.read_file('a.md'), want, (0x18e, 0x18f))
    for i in range(0x200, size, 2):
        s = s + out[i] * 256 + (out[i + 1] if i + 1 < size else 0)
    ctx.require(ctx.and_(out[0x18e] == (s >> 8) & 0xff, out[0x18f] == s & 0xff), 'the checksum is wrong')


def psx_main(ctx, size, places):
    """a PS-X EXE: 2048 byte header, code padded to a multiple of 2048"""
    src, want = rom_source(ctx, size, places, '0x', False)
    ctx.file('a.S', src)
    st, r = ctx.attempt(lambda: ctx.run_main(psx.main, ['necro_psx', 'a.S', 'a.exe']))
    ctx.require(st == 'ok', 'a program is refused', detail=repr(r))
    want = want + [0] * (-size % 2048)
    head = [0] * 2048

    def put(at, b):
        for i, x in enumerate(b):
            head[at + i] = x
    put(0, b'PS-X EXE')
    put(0x10, le(0x80010000, 4))
    put(0x14, le(0xffffffff, 4))
    put(0x18, le(0x80010000, 4))
    put(0x1c, le(len(want), 4))
    put(0x30, le(0x801ffff0, 4))
    put(0x4c, b'Sony Computer Entertainment Inc. for Europe area')
    ctx.require_bytes(ctx.read_file('a.exe'), bytes(head + want), 'the executable is wrong')


def case(fn, **p):
    return {'fn': 'harness.platforms:' + fn, 'params': p}


def cases_gameboy(tier):
    deep = tier != 'quick'
    out = []
    for title in (None, 0, 1, 5, 16) + (tuple(range(2, 16)) if deep else ()):
        for extra in ([], ['license', 'cgb', 'sgb', 'type', 'destination'], ['type'], ['destination', 'cgb']):
            if title == 0:
                continue
            for size in (0, 0x200) + ((0x8000,) if deep or (title in (None, 5) and len(extra) != 1) else ()):
                out.append(case('gb_rom', size=size, fill=size != 0x8000, body=3 if size else 2, title=title, extra=extra))
    for f, n in (('title', 16), ('license', 2), ('cgb', 1), ('sgb', 1), ('type', 1), ('destination', 1)):
        for k in sorted({0, 1, n - 1, n, n + 1, n + 2}):
            out.append(case('gb_overlong', field=f, n=k))
    for n in (2, 3):
        out.append(case('gb_place', n=n))
    for f in ('org', 'fill', 'ram', 'ramonly', 'back', 'near', 'two'):
        out.append(case('gb_origin', form=f))
    out.append(case('gb_labels'))
    for h in ('same', 'changed'):
        out.append(case('gb_again', how=h))
    out += tile_cases('gb', deep)
    return out


def tile_cases(fmt, deep):
    out = []
    if fmt == 'nes':
        for row, col, n, step in ((0, 0, 24, 1), (7, 120, 16, 1), (8, 0, 16, 129), (127, 112, 16, 1), (3, 5, 64, 255),
                                  (0, 8, 16, 128)):
            out.append(case('tiles', fmt=fmt, w=128, h=128, row=row, col=col, n=n, step=step, hi=3))
        for at in (0, 77, 127):
            out.append(case('tiles', fmt=fmt, w=128, h=128, row=at, col=at, n=1, step=1, hi=255))
        if deep:
            for row in range(0, 128, 5):
                out.append(case('tiles', fmt=fmt, w=128, h=128, row=row, col=0, n=128, step=1, hi=3))
    else:
        top = FORMATS[fmt][3]
        for w, h in ((8, 8), (16, 8), (8, 16), (24, 16), (16, 24)) + (((64, 32), (128, 8)) if deep else ()):
            out.append(case('tiles', fmt=fmt, w=w, h=h, row=0, col=0, n=w * h, step=1, hi=top))
            out.append(case('tiles', fmt=fmt, w=w, h=h, row=h - 1, col=w - 3, n=3, step=1, hi=255))
    out.append(case('names', fmt=fmt))
    for mode in ('P', 'RGB', 'L'):
        out.append(case('tile_size', fmt=fmt, mode=mode, args=''))
    for side in ('w', 'h'):
        out.append(case('tile_size', fmt=fmt, mode='P', args='', side=side))
    for args in ('t.png b', '"t.png" 1', '"t.png" "t.png"', 't.png'):
        out.append(case('tile_size', fmt=fmt, mode='P', args=args))
    return out


def cases_nes(tier):
    deep = tier != 'quick'
    out = []
    for prg in (False, True):
        for c in (False, True):
            for e in ('', 'wide', 'two', 'again', 'first', 'behind', 'without'):
                out.append(case('nes_header', prg=prg, chr_=c, extra=e))
    for count, n in ((1, 4), (2, 4), (1, 3), (1, 5)) + (((3, 4), (2, 5)) if deep else ()):
        out.append(case('nes_main', count=count, n=n))
    return out + tile_cases('nes', deep)


def cases_sms(tier):
    return tile_cases('sms', tier != 'quick')


def cases_checksums(tier):
    deep = tier != 'quick'
    out = []
    for size in (0x20, 0xbd, 0xbe, 0xbf, 0xc0, 0x200) + ((0x4000,) if deep else ()):
        out.append(case('gba_main', size=size, places=[0, 0x9f, 0xa0, 0xa1, 0xb0, 0xb2, 0xbc, 0xbd, 0xbe, 0xbf, 0xc0]))
        out.append(case('gba_main', size=size, places=list(range(0xa0, 0xbd))))
    for size in (0x100, 0x18f, 0x190, 0x1ff, 0x200, 0x201, 0x202, 0x203, 0x204, 0x300) + ((0x4000, 0x4001) if deep else ()):
        out.append(case('genesis_main', size=size, places=[0, 0x100, 0x18d, 0x18e, 0x18f, 0x190, 0x1ff, 0x200, 0x201, 0x202, 0x203, 0x2fe, 0x2ff]))
    return out


def cases_psx(tier):
    deep = tier != 'quick'
    out = []
    for size in (1, 4, 2047, 2048, 2049, 4096) + ((6143, 6144, 65536, 65537) if deep else ()):
        out.append(case('psx_main', size=size, places=[0, 1, 3, 2046, 2047, 2048, 4095]))
    return out
