"""Stand-ins for builtins and library functions, applied when an argument is symbolic.

Anything without a model here is executed on concrete values, forking over every feasible one
(complete up to a cap; past it the case is reported as partial)."""
import functools
import operator
import string as _string
import sys as _sys
import struct as _struct
import z3
from . import core
from .core import (SymInt, SymBool, Cell, b_and, b_or, b_not, mk, ite, as_int, Unsupported, bounds)
from .values import (SymStr, SymBytes, SymDict, Run, mkstr, cells_of, char_from_int, int_text, Opaque, has_sym,
                     is_sym, full_concrete, sym_eq, norm_segs, clamp0, tobytes, select)
from .sets import SymSet, m_set, m_frozenset

_type = type
_isinstance = isinstance


# ------------------------------------------------------------ int parsing

_DIG = '0123456789abcdefghijklmnopqrstuvwxyz'


def digit_val(ch):
    i = _DIG.find(ch.lower())
    return i if len(ch) == 1 else -1


def parse_int(s, base=10):
    if base == 0:
        return int(s.concrete(), 0)
    if _isinstance(base, SymInt):
        base = core.ENGINE.concretize(base)
    ok = set(_DIG[:base]) | set(_DIG[:base].upper())
    cells = list(s.cells)
    e = core.ENGINE

    def conc(i):
        c = cells[i]
        if _isinstance(c, Cell):
            cells[i] = chr(e.concretize(c.ordv()))
    special = {16: 'xX', 2: 'bB', 8: 'oO'}.get(base, '')

    def junk(ch):
        # makes the text malformed wherever it stands
        return ch < '\x80' and ch not in ok and not ch.isspace() and ch not in '+-_' and ch not in special
    if bool(b_or(*[(junk(c) if _isinstance(c, str) else c.pred(junk)) for c in cells])):
        raise ValueError('invalid literal for int() with base %d' % base)
    for i, c in enumerate(cells):
        if _isinstance(c, Cell):
            if not c.chars() <= ok:
                if not bool(c.pred(lambda ch: ch in ok)):
                    conc(i)
    for i, c in enumerate(cells):
        if _isinstance(c, str) and c not in ok and i > 0 and c in 'xXbBoO_':
            conc(i - 1)
    # a skeleton with every remaining symbolic digit replaced by '1' decides the syntax
    skel = ''.join(c if _isinstance(c, str) else '1' for c in cells)
    int(skel, base)        # ValueError exactly when the real text is malformed
    while cells and _isinstance(cells[0], str) and cells[0].isspace():
        cells.pop(0)
    while cells and _isinstance(cells[-1], str) and cells[-1].isspace():
        cells.pop()
    neg = False
    if cells[0] in ('+', '-'):
        neg = cells.pop(0) == '-'
    if len(cells) > 2 and cells[0] == '0' and _isinstance(cells[1], str) and \
            {16: 'xX', 2: 'bB', 8: 'oO'}.get(base, '').find(cells[1]) >= 0 and cells[1]:
        if {16: 'xX', 2: 'bB', 8: 'oO'}.get(base, '') and cells[1] in {16: 'xX', 2: 'bB', 8: 'oO'}[base]:
            cells = cells[2:]
    v = 0
    for c in cells:
        if c == '_':
            continue
        if _isinstance(c, str):
            d = int(c, base)
        else:
            tab = c.tab
            d = core.table_int(c.root, {k: digit_val(tab[k]) for k in c.dom()})
        v = v * base + d
    return -v if neg else v


def m_int(*a, **k):
    if not a:
        return int(**k)
    x = a[0]
    base = a[1] if len(a) > 1 else k.get('base', None)
    if _isinstance(x, (SymBool, SymInt)):
        if base is not None:
            raise TypeError("int() can't convert non-string with explicit base")
        return as_int(x)
    if _isinstance(x, SymStr):
        return parse_int(x, 10 if base is None else base)
    if _isinstance(x, SymBytes):
        return parse_int(x.decode('latin-1') if False else x.decode('ascii'), 10 if base is None else base) \
            if not _isinstance(x.decode('ascii'), str) else int(x.decode('ascii'), 10 if base is None else base)
    if hasattr(_type(x), '__int__') and not _isinstance(x, (int, float, str)):
        return x.__int__()
    return int(*[full_concrete(y) for y in a], **k)


def m_str(*a, **k):
    if not a:
        return ''
    x = a[0]
    if len(a) > 1 or k:
        if _isinstance(x, SymBytes):
            return x.decode(*a[1:], **k)
        return str(*a, **k)
    if _isinstance(x, SymStr):
        return x
    if _isinstance(x, (SymInt, SymBool)):
        return SymStr((Opaque(x),))
    if _isinstance(x, (list, tuple, dict)) and has_sym(x):
        return m_repr(x)
    s = _type(x).__str__
    if _isinstance(x, BaseException):
        if len(x.args) == 1 and _type(x).__str__ in (BaseException.__str__,):
            return m_str(x.args[0])
        return str(x)
    if s is object.__str__ or s is str.__str__ or s is int.__repr__:
        return str(x)
    if getattr(s, '__globals__', None) is not None and '__symex__' in s.__globals__:
        return s(x)
    return str(x)


def m_repr(x):
    if _isinstance(x, SymStr):
        cells = x.raw()
        plain = not any(_isinstance(c, Opaque) for c in cells)
        for c in cells if plain else ():
            for ch in (c,) if _isinstance(c, str) else c.chars():
                if ch in '\'\\' or not ch.isprintable():
                    plain = False
        if plain:
            return mkstr(("'",) + tuple(cells) + ("'",))
    if _type(x) in (list, tuple) and has_sym(x):
        out = ['[' if _type(x) is list else '(']
        for i, y in enumerate(x):
            if i:
                out.extend(', ')
            t = m_repr(y)
            out.extend(t if _isinstance(t, str) else t.raw())
        out.extend(']' if _type(x) is list else ',)' if len(x) == 1 else ')')
        return SymStr(tuple(out))
    if _isinstance(x, (SymInt, SymBool)) and not _isinstance(x, SymBool):
        return SymStr((Opaque(x),))
    if has_sym(x):
        return SymStr((Opaque(x),))
    return repr(x)


def m_format(x, spec=''):
    if _isinstance(x, (SymInt, SymBool)):
        return SymStr((Opaque(as_int(x), spec),))
    if _isinstance(x, SymStr):
        if not spec:
            return x
        return format(x.concrete(), spec)
    if not spec:
        return m_str(x)
    return format(x, spec)


def str_format(fmt, a, k):
    out = []
    auto = 0
    f = _string.Formatter()
    for lit, field, spec, conv in f.parse(fmt):
        out.extend(lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        if spec and '{' in spec:
            spec = str_format(spec, a, k)
            if not _isinstance(spec, str):
                spec = spec.concrete()
        obj, _ = f.get_field(field, a, k)
        if conv == 'r':
            obj = m_repr(obj)
        elif conv == 's':
            obj = m_str(obj)
        t = m_format(obj, spec or '')
        out.extend(t if _isinstance(t, str) else t.raw())
    if all(_isinstance(c, str) for c in out):
        return ''.join(out)
    return SymStr(tuple(out))


def m_bytes(*a, **k):
    return _bytes(False, *a, **k)


def m_bytearray(*a, **k):
    return _bytes(True, *a, **k)


def _bytes(mutable, *a, **k):
    if not a:
        return SymBytes([], True) if mutable else b''
    x = a[0]
    x = as_int(x)
    if _isinstance(x, SymStr):
        enc = a[1] if len(a) > 1 else k.get('encoding')
        if enc is None:
            raise TypeError('string argument without an encoding')
        r = x.encode(enc)
        return SymBytes.of(r, mutable)
    if _isinstance(x, SymInt):
        if bool(x < 0):
            raise ValueError('negative count')
        return SymBytes(norm_segs([Run(0, clamp0(x))]), mutable)
    if _isinstance(x, SymBytes):
        return SymBytes.of(x, mutable)
    if _isinstance(x, RunList):
        probe = SymBytes([], True)
        v = probe._byteval(x.v) if bool(x.n > 0) else 0
        return SymBytes(norm_segs([Run(v, x.n)]), mutable)
    if _isinstance(x, (str, int, bytes, bytearray)):
        r = bytes(*a, **k)
        if mutable:
            return SymBytes.of(r, True)
        return r
    if hasattr(_type(x), '__bytes__'):
        r = x.__bytes__()
        return SymBytes.of(r, mutable)
    items = list(x)
    if not has_sym(items, 1):
        r = bytes(items)
        return SymBytes.of(r, True) if mutable else r
    probe = SymBytes([], True)
    items = [probe._byteval(v) if not _isinstance(v, int) or v < 0 or v > 255 else v for v in items]
    return SymBytes([items] if items else [], mutable)


class RunList:
    """[v] * n with a symbolic n"""
    __slots__ = ('v', 'n')

    def __init__(self, v, n):
        self.v = v
        self.n = n

    def __iter__(self):
        return iter([self.v] * core.ENGINE.concretize(self.n))

    def __len__(self):
        return core.ENGINE.concretize(self.n)

    def __add__(self, o):
        return list(self) + list(o)

    def __radd__(self, o):
        return list(o) + list(self)


def seq_repeat(seq, n):
    n = clamp0(n)
    if not _isinstance(n, SymInt):
        return seq * n
    if _isinstance(seq, list) and len(seq) == 1 and _isinstance(seq[0], (int, SymInt)):
        return RunList(seq[0], n)
    if _isinstance(seq, tuple) and len(seq) == 1 and _isinstance(seq[0], (int, SymInt)):
        return RunList(seq[0], n)
    if _isinstance(seq, (bytes, bytearray)) and len(seq) == 1:
        return SymBytes(norm_segs([Run(seq[0], n)]), _isinstance(seq, bytearray))
    return seq * core.ENGINE.concretize(n)


def m_len(x):
    if _isinstance(x, SymBytes):
        return x.slen()
    if _isinstance(x, RunList):
        return x.n
    return len(x)


def m_range(*a):
    if not has_sym(a, 1):
        return range(*a)
    return _symrange(*[as_int(x) for x in a])


def _symrange(*a):
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
        step = full_concrete(step)
    i = start
    while bool(i < stop) if step > 0 else bool(i > stop):
        yield i
        i = i + step


def m_isinstance(x, t):
    tx = _type(x)
    if tx in _LIFT:
        want = _LIFT[tx]
        if tx is SymBytes:
            want = bytearray if x.mutable else bytes
        elif tx is SymSet:
            want = frozenset if x.frozen else set
        ts = t if _isinstance(t, tuple) else (t,)
        for y in ts:
            if _isinstance(y, tuple):
                if m_isinstance(x, y):
                    return True
                continue
            y = _UNPATCH.get(id(y), y)
            try:
                if issubclass(want, y):
                    return True
            except TypeError:
                if _isinstance(x, y):
                    return True
        return False
    return _isinstance(x, _unpatch_t(t))


def _unpatch_t(t):
    if _isinstance(t, tuple):
        return tuple(_unpatch_t(y) for y in t)
    return _UNPATCH.get(id(t), t)


def m_issubclass(a, b):
    return issubclass(_UNPATCH.get(id(a), a), _unpatch_t(b))


def m_type(*a):
    if len(a) == 1:
        x = a[0]
        if _isinstance(x, SymBytes):
            return bytearray if x.mutable else bytes
        if _type(x) in _LIFT:
            return _LIFT[_type(x)]
        if _type(x) is SymDict:
            return dict
        return _type(x)
    return _type(*a)


_LIFT = {SymInt: int, SymBool: bool, SymStr: str, SymBytes: bytes, SymSet: set}


def m_ord(x):
    if _isinstance(x, SymStr):
        c = x.cells
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        return c[0].ordv() if _isinstance(c[0], Cell) else ord(c[0])
    if _isinstance(x, SymBytes):
        l = x.flat()
        if len(l) != 1:
            raise TypeError('ord() expected a character')
        return l[0]
    return ord(x)


def m_chr(x):
    return char_from_int(x)


def m_any(it):
    if _isinstance(it, list):
        return b_or(*[x if _isinstance(x, (SymBool, bool)) else bool(x) for x in it])
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    if _isinstance(it, list):
        return b_and(*[x if _isinstance(x, (SymBool, bool)) else bool(x) for x in it])
    for x in it:
        if not x:
            return False
    return True


def m_bool(*a):
    if not a:
        return False
    x = a[0]
    if _isinstance(x, SymBool):
        return x
    if _isinstance(x, SymInt):
        return x != 0
    return bool(x)


def m_pow(a, b, m=None):
    return pow(a, b) if m is None else pow(full_concrete(a), full_concrete(b), full_concrete(m))


def m_hex(x):
    return int_fmt(x, '#x')


def int_fmt(x, spec):
    x = as_int(x)
    if not _isinstance(x, SymInt):
        return format(x, spec)
    pre = {'#x': '0x', '#b': '0b', '#o': '0o'}[spec]
    conv = spec[1]
    if x.lo >= 0:
        return SymStr(tuple(pre) + (Opaque(x, conv),))
    if bool(x < 0):
        return SymStr(tuple('-' + pre) + (Opaque(-x, conv),))
    return SymStr(tuple(pre) + (Opaque(x, conv),))


def m_bin(x):
    return int_fmt(x, '#b')


def m_oct(x):
    return int_fmt(x, '#o')


PRINTED = None


def m_print(*a, **k):
    f = k.get('file')
    if PRINTED is not None and (f is None or f is _sys.stdout):
        out = []
        for i, x in enumerate(a):
            if i:
                out.extend(k.get('sep') or ' ')
            t = m_str(x)
            out.extend(t if _isinstance(t, str) else t.raw())
        PRINTED.append(''.join(out) if all(_isinstance(c, str) for c in out) else SymStr(tuple(out)))
    if f is not None and hasattr(f, 'write') and _isinstance(f, VFile):
        f.write((k.get('sep') or ' ').join([m_str(x) for x in a]) + (k.get('end') or '\n'))


def m_callable(x):
    return callable(x)


def m_dict(*a, **k):
    return SymDict(*a, **k)


def m_round(x, n=None):
    if _isinstance(x, SymInt):
        return x
    return round(x) if n is None else round(x, n)


def m_minmax(f, less):
    def g(*a, **k):
        if k or not (has_sym(a, 2)):
            return f(*a, **k)
        items = list(a[0]) if len(a) == 1 else list(a)
        if not all(_isinstance(x, (int, SymInt)) for x in items):
            return f(*a)
        r = items[0]
        for x in items[1:]:
            c = (x < r) if less else (x > r)
            r = ite(c, x, r)
        return r
    return g


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


# ------------------------------------------------------------------- open

class VFS:
    """files visible to the code under test; replay materialises the same ones in a scratch directory"""

    def __init__(self):
        self.files = {}

    def reset(self):
        self.files = {}


VFILES = VFS()


class VFile:
    def __init__(self, name, mode):
        self.name = name
        self.mode = mode
        self.binary = 'b' in mode
        self.closed = False
        if 'w' in mode:
            VFILES.files[name] = SymBytes([], True)
            self.write_ = True
        else:
            self.write_ = 'a' in mode
            if name not in VFILES.files:
                raise FileNotFoundError(2, 'No such file or directory', name)
        self.pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return None

    def close(self):
        self.closed = True

    def read(self, n=-1):
        d = VFILES.files[self.name]
        if self.binary:
            d = tobytes(d) if not _isinstance(d, (str, SymStr)) else tobytes(d.encode('utf-8'))
            r = d[self.pos:] if n is None or n < 0 else d[self.pos:self.pos + n]
        else:
            if _isinstance(d, (bytes, bytearray)):
                d = bytes(d).decode('utf-8')
            elif _isinstance(d, SymBytes):
                d = d.decode('utf-8')
            # universal newlines
            if self.pos == 0:
                d = nl(d)
            r = d[self.pos:] if n is None or n < 0 else d[self.pos:self.pos + n]
        self.pos = self.pos + m_len(r)
        return r

    def readlines(self):
        return list(iter(self))

    def readline(self):
        raise Unsupported('readline')

    def __iter__(self):
        t = self.read()
        return iter(t.splitlines(True))

    def write(self, b):
        if not self.binary:
            b = b.encode('utf-8')
        if not _isinstance(b, (bytes, bytearray, SymBytes)):
            raise TypeError("a bytes-like object is required")
        d = VFILES.files[self.name]
        n = m_len(b)
        if bool(n == 0):
            return n
        if bool(self.pos > d.slen()):
            d += SymBytes(norm_segs([Run(0, self.pos - d.slen())]), False)
        if bool(self.pos == d.slen()):
            d += b
        else:
            d[self.pos:self.pos + n] = b
        self.pos = self.pos + n
        return n

    def seek(self, p, whence=0):
        if whence:
            raise Unsupported('seek')
        self.pos = p
        return p

    def tell(self):
        return self.pos


def nl(d):
    if _isinstance(d, str):
        return d.replace('\r\n', '\n').replace('\r', '\n')
    out = []
    prev_cr = False
    for ch in d:
        if prev_cr and bool(ch == '\n'):
            prev_cr = False
            continue
        prev_cr = False
        if bool(ch == '\r'):
            out.append('\n')
            prev_cr = True
        else:
            out.extend(cells_of(ch))
    return mkstr(out)


def m_open(name, mode='r', *a, **k):
    if _isinstance(name, SymStr):
        name = name.concrete()
    return VFile(name, mode)


# ----------------------------------------------------------------- struct

_SZ = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8}


def parse_fmt(fmt):
    order = '@'
    i = 0
    if fmt and fmt[0] in '@=<>!':
        order = fmt[0]
        i = 1
    items = []
    num = ''
    for ch in fmt[i:]:
        if ch.isdigit():
            num += ch
            continue
        if ch.isspace():
            continue
        n = int(num) if num else None
        num = ''
        if ch in 's':
            items.append(('s', 1 if n is None else n))
        elif ch == 'x':
            items += [('x', 1)] * (1 if n is None else n)
        else:
            items += [(ch, _SZ.get(ch))] * (1 if n is None else n)
    return order, items


def struct_pack(fmt, *args):
    if _isinstance(fmt, SymStr):
        fmt = fmt.concrete()
    if not has_sym(args, 1):
        return _struct.pack(fmt, *args)
    order, items = parse_fmt(fmt)
    if order == '@' and (len({s for c, s in items}) > 1 or any(c in 'lL' for c, s in items)):
        return _struct.pack(fmt, *[full_concrete(x) for x in args])
    little = order in '<@='
    need = sum(1 for c, s in items if c != 'x')
    if need != len(args):
        raise _struct.error('pack expected %d items for packing (got %d)' % (need, len(args)))
    out = []
    it = iter(args)
    for c, size in items:
        if c == 'x':
            out.append([0])
            continue
        v = next(it)
        if c == 's':
            b = tobytes(v)
            if b is None:
                raise _struct.error("argument for 's' must be a bytes object")
            l = b.flat()[:size]
            out.append(list(l) + [0] * (size - len(l)))
            continue
        if size is None:
            return _struct.pack(fmt, *[full_concrete(x) for x in args])
        v = as_int(v)
        if not _isinstance(v, (int, SymInt)):
            if hasattr(v, '__index__'):
                v = v.__index__()
            else:
                raise _struct.error('required argument is not an integer')
        bits = 8 * size
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if c.islower() else (0, (1 << bits) - 1)
        if bool(b_or(v < lo, v > hi)):
            raise _struct.error("'%s' format requires %d <= number <= %d" % (c, lo, hi))
        bs = [(v >> (8 * k)) & 0xff for k in range(size)]
        out.append(bs if little else bs[::-1])
    return SymBytes(norm_segs(out), False)


def struct_unpack(fmt, data):
    if not has_sym(data):
        return _struct.unpack(fmt, data)
    order, items = parse_fmt(fmt)
    little = order in '<@='
    l = tobytes(data).flat()
    if len(l) != _struct.calcsize(fmt):
        raise _struct.error('unpack requires a buffer of %d bytes' % _struct.calcsize(fmt))
    if order == '@' and len({s for c, s in items}) > 1:
        return _struct.unpack(fmt, tobytes(data).concrete())
    out = []
    p = 0
    for c, size in items:
        if c == 'x':
            p += 1
            continue
        chunk = l[p:p + size]
        p += size
        if c == 's':
            out.append(SymBytes([chunk], False))
            continue
        if size is None:
            return _struct.unpack(fmt, tobytes(data).concrete())
        out.append(bytes_to_int(chunk, 'little' if little else 'big', c.islower()))
    return tuple(out)


def bytes_to_int(chunk, byteorder, signed=False):
    v = 0
    for b in (reversed(chunk) if byteorder == 'little' else chunk):
        v = (v << 8) | b
    if signed and chunk:
        n = 8 * len(chunk)
        v = ite(v >= (1 << (n - 1)), v - (1 << n), v)
    return v


def int_from_bytes(b, byteorder='big', *, signed=False):
    if has_sym(b):
        return bytes_to_int(list(b), byteorder, signed)
    return int.from_bytes(b, byteorder, signed=signed)


def int_to_bytes(v, length=1, byteorder='big', *, signed=False):
    if not _isinstance(v, SymInt):
        return v.to_bytes(length, byteorder, signed=signed)
    length = full_concrete(length)
    bits = 8 * length
    if not signed and bool(v < 0):
        raise OverflowError("can't convert negative int to unsigned")
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if bool(b_or(v < lo, v > hi)):
        raise OverflowError('int too big to convert')
    bs = [(v >> (8 * k)) & 0xff for k in range(length)]
    return SymBytes([bs if byteorder == 'little' else bs[::-1]], False)


class StructModel:
    error = _struct.error
    pack = staticmethod(struct_pack)
    unpack = staticmethod(struct_unpack)
    calcsize = staticmethod(_struct.calcsize)

    @staticmethod
    def pack_into(fmt, buf, off, *args):
        b = struct_pack(fmt, *args)
        n = _struct.calcsize(fmt)
        if bool(b_or(off < 0, off + n > m_len(buf))):
            raise _struct.error('pack_into requires a buffer of at least %d bytes' % n)
        buf[off:off + n] = b

    @staticmethod
    def unpack_from(fmt, buf, offset=0):
        n = _struct.calcsize(fmt)
        if bool(offset + n > m_len(buf)):
            raise _struct.error('unpack_from requires a buffer')
        return struct_unpack(fmt, buf[offset:offset + n])

    @staticmethod
    def iter_unpack(fmt, buf):
        n = _struct.calcsize(fmt)
        for i in range(0, len(buf), n):
            yield struct_unpack(fmt, buf[i:i + n])

    def __getattr__(self, name):
        return getattr(_struct, name)


class CsvModel:
    """csv.reader for the plain (unquoted) dialect; anything else runs concretely"""

    @staticmethod
    def reader(f, *a, **k):
        import csv
        text = f.read() if hasattr(f, 'read') else None
        if text is None:
            lines = list(f)
            text = ''
            for l in lines:
                text = text + l
        if a or k or not _isinstance(text, SymStr) or bool(text.contains('"')):
            t = text.concrete() if _isinstance(text, SymStr) else text
            return csv.reader(t.splitlines(True), *a, **k)
        rows = []
        for line in text.split('\n'):
            if len(line) == 0:
                rows.append([])
            else:
                rows.append(line.split(','))
        if rows and rows[-1] == []:
            rows.pop()
        return iter(rows)

    def __getattr__(self, name):
        import csv
        return getattr(csv, name)


class JsonModel:
    """json.load/loads; the harness registers structured content by file name"""

    @staticmethod
    def load(f, **k):
        import json
        obj = VJSON.get(getattr(f, 'name', None))
        if obj is not None:
            return symcopy(obj)
        d = f.read()
        return JsonModel.loads(d)

    @staticmethod
    def loads(d, **k):
        import json
        return json.loads(full_concrete(d), **k)

    def __getattr__(self, name):
        import json
        return getattr(json, name)


VJSON = {}


def symcopy(o):
    if _isinstance(o, dict):
        return SymDict({k: symcopy(v) for k, v in o.items()})
    if _isinstance(o, list):
        return [symcopy(x) for x in o]
    return o


# ----------------------------------------------------------------- hooks

def s_in(a, b):
    tb = _type(b)
    if _isinstance(b, SymDict):
        return b.has(a)
    if tb is SymStr:
        if not _isinstance(a, (str, SymStr)):
            raise TypeError("'in <string>' requires string as left operand")
        return b.contains(a)
    if tb is SymBytes:
        return b.contains(a)
    if tb is str and _isinstance(a, SymStr):
        c = a.cells
        if len(c) == 1:
            return c[0].pred(lambda ch: ch in b) if _isinstance(c[0], Cell) else (c[0] in b)
        return b_or(*[a == b[i:i + len(c)] for i in range(len(b) - len(c) + 1)]) if c else True
    if tb in (tuple, list):
        if has_sym(a) or has_sym(b, 2):
            if not has_sym(b, 2) and _isinstance(a, SymStr) and len(a.cells) == 1 and _isinstance(a.cells[0], Cell):
                return a.cells[0].pred(lambda ch: ch in b)
            conds = []
            for x in b:
                c = sym_eq(a, x)
                if c is True:
                    conds.append(True)
                    break
                if c is False or c is NotImplemented:
                    continue
                conds.append(c)
            return b_or(*conds)
        return a in b
    if tb is SymSet:
        return b.contains(a)
    if is_sym(a) and tb in (set, frozenset, dict, type({}.keys()), type({}.values())):
        return b_or(*[c for c in (sym_eq(a, x) for x in b) if c is not NotImplemented])
    if is_sym(a) and tb is range:
        if _isinstance(a, SymInt):
            r = b_and(a >= b.start, a < b.stop) if b.step > 0 else b_and(a <= b.start, a > b.stop)
            if abs(b.step) != 1:
                r = b_and(r, (a - b.start) % b.step == 0)
            return r
        return False
    return operator.contains(b, a)


_SPEC = (TypeError, ValueError, LookupError, ArithmeticError, AttributeError)


def _mergeable(x):
    return _isinstance(x, (int, SymInt, SymBool))


def s_or(a, rhs):
    t = _type(a)
    if t is SymInt or (t is SymBool and a.meta is None):
        try:
            b = rhs()
        except _SPEC:
            return a or rhs()
        if t is SymBool and _isinstance(b, (bool, SymBool)):
            return b_or(a, b)
        if t is SymInt and _mergeable(b):
            return ite(a != 0, a, as_int(b))
        return a if a else b
    return a or rhs()


def s_and(a, rhs):
    t = _type(a)
    if t is SymInt or (t is SymBool and a.meta is None):
        try:
            b = rhs()
        except _SPEC:
            return a and rhs()
        if t is SymBool and _isinstance(b, (bool, SymBool)):
            return b_and(a, b)
        if t is SymInt and _mergeable(b):
            return ite(a != 0, as_int(b), a)
        return b if a else a
    return a and rhs()


def s_ife(c, a, b):
    if _type(c) is SymInt:
        c = c != 0
    if _type(c) is SymBool:
        try:
            x, y = a(), b()
        except _SPEC:
            return a() if c else b()
        if _mergeable(x) and _mergeable(y):
            if _isinstance(x, (bool, SymBool)) != _isinstance(y, (bool, SymBool)):
                x, y = as_int(x), as_int(y)
            return ite(c, x, y)
        return x if c else y
    return a() if c else b()


def s_merge(c, a, b):
    """both values are integers and the condition is symbolic"""
    t = _type(c)
    if t is not SymInt and (t is not SymBool or c.meta is not None):
        return False
    try:
        x, y = a(), b()
    except _SPEC + (NameError,):
        return False
    return _mergeable(x) and _mergeable(y) and \
        _isinstance(x, (bool, SymBool)) == _isinstance(y, (bool, SymBool))


def s_notin(a, b):
    return b_not(s_in(a, b))


def s_getitem(o, i):
    t = _type(o)
    if t is SymDict or t is SymBytes or t is SymStr:
        return o[i]
    if _isinstance(i, SymBool):
        i = as_int(i)
    if _isinstance(i, SymInt):
        if t in (list, tuple):
            return select(o, i)
        if t in (bytes, bytearray):
            return select(list(o), i)
        if t is range:
            return o.start + i * o.step
        if t is str:
            n = len(o)
            if bool(b_or(i < -n, i >= n)):
                raise IndexError('string index out of range')
            if bool(i < 0):
                i = i + n
            return char_from_int(select([ord(c) for c in o], i))
        if t is dict:
            return SymDict(o)[i]
    elif t is dict and has_sym(i):
        return SymDict(o)[i]
    return o[i]


def s_fstr(*parts):
    out = []
    for p in parts:
        if _type(p) is tuple:
            v, conv, spec = p
            if conv == 114:
                v = m_repr(v)
            elif conv == 115:
                v = m_str(v)
            elif conv == 97:
                v = ascii(v)
            if _isinstance(spec, SymStr):
                spec = spec.concrete()
            v = m_format(v, spec)
            out.extend(v if _isinstance(v, str) else v.raw())
        else:
            out.extend(p)
    if all(_isinstance(c, str) for c in out):
        return ''.join(out)
    return SymStr(tuple(out))


def s_mod(a, b):
    if _isinstance(a, str) and has_sym(b):
        args = b if _isinstance(b, tuple) else (b,)
        import re
        pos = 0
        out = []
        k = 0
        for m in re.finditer(r'%(%|[-0#+ ]*\d*(?:\.\d+)?[sdrxXiuc])', a):
            out.extend(a[pos:m.start()])
            pos = m.end()
            sp = m.group(1)
            if sp == '%':
                out.append('%')
                continue
            v = args[k]
            k += 1
            if sp == 's':
                t = m_str(v)
            elif sp == 'r':
                t = m_repr(v)
            elif sp in ('d', 'i', 'u') or (sp[-1] in 'dxX' and sp[:-1].isdigit()):
                t = m_format(v, sp.replace('i', 'd').replace('u', 'd'))
            else:
                t = ('%' + sp) % full_concrete(v)
            out.extend(t if _isinstance(t, str) else t.raw())
        out.extend(a[pos:])
        return mkstr(out) if not any(_isinstance(c, Opaque) for c in out) else SymStr(tuple(out))
    return a % b


def _pure_container_method(f):
    s = getattr(f, '__self__', None)
    return _isinstance(s, (list, dict, set))


_SET_MUT = ('add', 'update', 'discard', 'remove', 'difference_update', 'intersection_update')


_PASS_TYPES = (type(lambda: 0),)


def s_call(f, *a, **k):
    t = _type(f)
    if t is _FUNC or t is _METHOD:
        g = f if t is _FUNC else f.__func__
        if _type(g) is not _FUNC or '__symex__' in g.__globals__ or (g.__module__ or '').startswith('symex.'):
            return f(*a, **k)
        # foreign Python function
        if has_sym(a) or has_sym(k):
            m = _MODELS.get(g)
            if m is not None:
                return m(*a, **k)
            return f(*[full_concrete(x) for x in a], **{n: full_concrete(x) for n, x in k.items()})
        return f(*a, **k)
    if t is _BUILTIN:
        s = f.__self__
        ts = _type(s)
        if ts is str:
            n = f.__name__
            if n == 'format':
                if has_sym(a) or has_sym(k) or a or k:
                    return str_format(s, a, k)
                return f()
            if n == 'join' and a:
                it = list(a[0]) if not _isinstance(a[0], (str, SymStr)) else list(a[0])
                if has_sym(it):
                    return SymStr(tuple(s)).join(it) if s else SymStr(()).join(it)
                return f(it)
            if has_sym(a):
                return getattr(SymStr(tuple(s)), n)(*a, **k)
            return f(*a, **k)
        if ts in (bytes, bytearray):
            n = f.__name__
            if n == 'join':
                return SymBytes.of(s, ts is bytearray).join(list(a[0]))
            if has_sym(a):
                return getattr(SymBytes.of(s, ts is bytearray), n)(*a, **k)
            return f(*a, **k)
        if ts is int:
            if has_sym(a):
                return f(*[full_concrete(x) for x in a], **k)
            return f(*a, **k)
        if ts in (set, frozenset) and (has_sym(a) or any(_isinstance(x, SymSet) for x in a)):
            n = f.__name__
            if n not in _SET_MUT:
                return getattr(SymSet.of(s, ts is frozenset), n)(*a)
        if ts in (list, dict, set, SymDict, tuple, SymStr, SymBytes, frozenset):
            if ts is tuple or ts is list:
                n = f.__name__
                if n in ('index', 'count') and (has_sym(a) or has_sym(s)):
                    return seq_index(s, n, *a)
            return f(*a, **k)
        if has_sym(a) or has_sym(k):
            m = _MODELS.get(f)
            if m is not None:
                return m(*a, **k)
            if f in _PASS:
                return f(*a, **k)
            return f(*[full_concrete(x) for x in a], **{n: full_concrete(x) for n, x in k.items()})
        return f(*a, **k)
    if t is type and f in _PATCHED_TYPES and _PATCHED_TYPES[f] is not None:
        return _PATCHED_TYPES[f](*a, **k)
    if t is _METHDESC and has_sym(a):
        # str.upper(x) and friends
        x = a[0]
        if _isinstance(x, (SymStr, SymBytes, SymInt, SymDict)):
            return getattr(x, f.__name__)(*a[1:], **k)
        if _isinstance(x, str):
            return getattr(SymStr(tuple(x)), f.__name__)(*a[1:], **k)
    if t is functools.partial:
        kw = dict(f.keywords)
        kw.update(k)
        return s_call(f.func, *f.args, *a, **kw)
    return f(*a, **k)


def m_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = s_call(f, acc, x)
    return acc


def seq_index(s, name, x, start=0, stop=None):
    if name == 'count':
        n = 0
        for y in s:
            n = n + as_int(ite(sym_eq(y, x), 1, 0))
        return n
    # a symbolic single-root string over concrete strings: a table
    if _isinstance(x, SymStr) and not has_sym(s) and start == 0 and stop is None:
        d = SymDict()
        for i, y in enumerate(s):
            if y not in d:
                dict.__setitem__(d, y, i)
        v = d.get(x, None)
        if v is None:
            raise ValueError('x not in sequence')
        return v
    for i in range(start, len(s) if stop is None else stop):
        if bool(sym_eq(s[i], x)):
            return i
    raise ValueError('x not in sequence')


_FUNC = type(s_call)
_METHOD = type(SymStr(()).upper)
_BUILTIN = type(len)
_METHDESC = type(str.upper)

BUILTINS = {
    'int': m_int, 'str': m_str, 'bytes': m_bytes, 'bytearray': m_bytearray, 'dict': m_dict, 'bool': m_bool,
    'len': m_len, 'range': m_range, 'isinstance': m_isinstance, 'issubclass': m_issubclass, 'type': m_type,
    'ord': m_ord, 'chr': m_chr, 'any': m_any, 'all': m_all, 'pow': m_pow, 'hex': m_hex, 'bin': m_bin, 'oct': m_oct,
    'repr': m_repr, 'format': m_format, 'print': m_print, 'open': m_open, 'round': m_round, 'sum': m_sum,
    'min': m_minmax(min, True), 'max': m_minmax(max, False),
}

# names that are types in real Python stay types (so classes can derive from them and
# attributes such as int.from_bytes work); calls to them are redirected in s_call
_PATCHED_TYPES = {int: m_int, str: m_str, bytes: m_bytes, bytearray: m_bytearray, dict: m_dict, bool: m_bool,
                  type: m_type, range: m_range, set: m_set, frozenset: m_frozenset}
_UNPATCH = {}

_MODELS = {
    int.from_bytes: int_from_bytes, functools.reduce: m_reduce,
    len: m_len, isinstance: m_isinstance, ord: m_ord, chr: m_chr, any: m_any, all: m_all, pow: m_pow, hex: m_hex,
    bin: m_bin, oct: m_oct, repr: m_repr, format: m_format, print: m_print, open: m_open, sum: m_sum,
    min: BUILTINS['min'], max: BUILTINS['max'], round: m_round, issubclass: m_issubclass,
    _struct.pack: struct_pack, _struct.unpack: struct_unpack,
    operator.contains: lambda a, b: s_in(b, a), operator.getitem: s_getitem,
}
_PASS = {callable, hasattr, getattr, setattr, id, iter, next, abs, divmod, sorted, delattr, operator.add, operator.sub,
         operator.and_, operator.or_, operator.xor, operator.lshift, operator.rshift, operator.mul, operator.eq,
         operator.ne, operator.lt, operator.le, operator.gt, operator.ge, operator.floordiv, operator.mod,
         operator.neg, operator.invert, dir, vars}


def m_map(f, *its):
    for xs in zip(*its):
        yield s_call(f, *xs)


def m_filter(f, it):
    for x in it:
        if (s_call(f, x) if f is not None else x):
            yield x


def m_sorted(it, *, key=None, reverse=False):
    if key is None:
        return sorted(it, reverse=reverse)
    return sorted(it, key=lambda x: s_call(key, x), reverse=reverse)


BUILTINS.update(map=m_map, filter=m_filter, sorted=m_sorted)
for _n in ('int', 'str', 'bytes', 'bytearray', 'dict', 'bool', 'type', 'range'):
    del BUILTINS[_n]


def s_dict(*items):
    d = SymDict()
    for k, v in items:
        if k is _SPREAD:
            d.update(v)
        else:
            d[k] = v
    return d


_SPREAD = object()
