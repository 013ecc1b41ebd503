"""Instructions of the 68000 that the assembler knows, by effective addresses and opcode fields."""

# modes: number, register or None for the one named
MODES = {
    'Dn': (0, None), 'An': (1, None), '(An)': (2, None), '(An)+': (3, None), '-(An)': (4, None), '(d,An)': (5, None), '(d,An,Xn)': (6, None), '(a).w': (7, 0), '(a).l': (7, 1),
    'a.w': (7, 0), 'a.l': (7, 1), 'a': (7, 1), '(d,PC)': (7, 2), '(d,PC,Xn)': (7, 3), '#': (7, 4),
}
ABS = ('(a).w', '(a).l', 'a.w', 'a.l', 'a')
ALTERABLE = ('Dn', '(An)', '(An)+', '-(An)', '(d,An)', '(d,An,Xn)') + ABS
CONTROL = ('(An)', '(d,An)', '(d,An,Xn)', '(d,PC)', '(d,PC,Xn)') + ABS
ALL = tuple(MODES)
# modes with a value in an extension word, and those of which labels are relative to it
VALUED = ('(d,An)', '(d,An,Xn)', '(d,PC)', '(d,PC,Xn)', '#') + ABS

CONDITIONS = ('t', 'f', 'hi', 'ls', 'cc', 'cs', 'ne', 'eq', 'vc', 'vs', 'pl', 'mi', 'ge', 'lt', 'gt', 'le')
SIZES = {'.b': 1, '.w': 2, '.l': 4, '': 2}
_BITS = {1: 0, 2: 1, 4: 2}
_MOVE = {1: 1, 2: 3, 4: 2}

# mnemonic -> list of (kinds of the operands, opcode of the values, size of the immediate)
OPS = {}


def _ea(mode, reg):
    return mode << 3 | reg


def _add(mn, kinds, word, size=0):
    OPS.setdefault(mn, []).append((kinds, word, size))


def _move(s):
    return lambda a, b: _MOVE[s] << 12 | b[1] << 9 | b[0] << 6 | _ea(*a)


def _movea(s):
    return lambda a, b: _MOVE[s] << 12 | b[1] << 9 | 1 << 6 | _ea(*a)


def _imm(code, s):
    return lambda a, b: code << 9 | _BITS[s] << 6 | _ea(*b)


def _build():
    for sx, s in SIZES.items():
        src = ALL if s > 1 else tuple(m for m in ALL if m != 'An')
        _add('move' + sx, (src, ALTERABLE), _move(s), s)
        if s > 1:
            _add('move' + sx, (src, ('An',)), _movea(s), s)
            _add('movea' + sx, (src, ('An',)), _movea(s), s)
        for n, code in (('ori', 0), ('andi', 1), ('subi', 2), ('addi', 3), ('eori', 5), ('cmpi', 6)):
            _add(n + sx, (('#',), ALTERABLE), _imm(code, s), s)
            if n in ('ori', 'andi', 'eori'):
                if sx in ('', '.b'):
                    _add(n + sx, (('#',), ('CCR',)), lambda a, b, code=code: code << 9 | 0x3c, 1)
                if sx in ('', '.w'):
                    _add(n + sx, (('#',), ('SR',)), lambda a, b, code=code: code << 9 | 0x7c, 2)
    _add('jmp', (CONTROL,), lambda a: 0x4ec0 | _ea(*a))
    _add('jsr', (CONTROL,), lambda a: 0x4e80 | _ea(*a))
    for sx in ('', '.l'):
        _add('lea' + sx, (CONTROL, ('An',)), lambda a, b: 0x41c0 | b[1] << 9 | _ea(*a))
    for i, c in enumerate(CONDITIONS):
        if i > 1:
            for sx in ('', '.w'):
                _add('b' + c + sx, (('rel16',),), lambda a, i=i: 0x6000 | i << 8)
            _add('b' + c + '.b', (('rel8',),), lambda a, i=i: 0x6000 | i << 8 | a & 0xff)
        for sx in ('', '.w'):
            _add('db' + c + sx, (('Dn',), ('rel16',)), lambda a, b, i=i: 0x50c8 | i << 8 | a[1])
    for sx in ('', '.w'):
        _add('dbra' + sx, (('Dn',), ('rel16',)), lambda a, b: 0x51c8 | a[1])
    _add('rts', (), lambda: 0x4e75)
    _add('nop', (), lambda: 0x4e71)


_build()

LETTERS = 'abcdehilmnoprstuvwxz'
