"""Symbolic strings, byte strings and dictionaries."""
import z3
from . import core
from .core import (SymInt, SymBool, Cell, cell_eq, b_and, b_or, b_not, b_term, mk, ite, Unsupported,
                   root_cond, root_dom, table_int, i_term, bounds, width_for, as_int)

_STR_METHODS = {n for n in dir(str) if not n.startswith('__')}


class Opaque:
    """text of a symbolic value inside a message; expanded only when looked at"""
    __slots__ = ('value', 'spec')

    def __init__(self, value, spec=''):
        self.value = value
        self.spec = spec


def mkstr(cells):
    out = []
    sym = False
    for c in cells:
        if isinstance(c, Cell):
            c = c.norm()
        if not isinstance(c, str):
            sym = True
        out.append(c)
    if not sym:
        return ''.join(out)
    return SymStr(tuple(out))


def cells_of(s):
    if isinstance(s, str):
        return tuple(s)
    if isinstance(s, SymStr):
        return s.cells
    raise TypeError('can only concatenate str')


def char_from_int(code):
    code = as_int(code)
    if not isinstance(code, SymInt):
        return chr(code)
    e = core.ENGINE
    if code.lo < 0 or code.hi > 0x10ffff:
        if bool(b_or(code < 0, code > 0x10ffff)):
            raise ValueError('chr() arg not in range(0x110000)')
    if code.hi - code.lo > 512:
        return chr(e.concretize(code))
    e.fresh_n += 1
    r = e.new_root('!c%d' % e.fresh_n, range(code.lo, code.hi + 1))
    w = max(code.t.size(), r.width + 1)
    e.assume(SymBool(z3.ZeroExt(w - r.width, r.var) == code.at(w)))
    return mkstr((Cell(r, {v: chr(v) for v in r.domain}),))


def int_text(v, spec=''):
    """decimal text of an int, forking on sign and number of digits"""
    v = as_int(v)
    if not isinstance(v, SymInt):
        return format(v, spec)
    zero, width, base = False, 0, 10
    s = spec
    conv = 'd'
    if s and s[-1] in 'dxXbo':
        conv = s[-1]
        s = s[:-1]
    if s.startswith('0'):
        zero = True
        s = s[1:]
    if s.isdigit():
        width = int(s)
    elif s:
        return format(core.ENGINE.concretize(v), spec)
    base = {'d': 10, 'x': 16, 'X': 16, 'b': 2, 'o': 8}[conv]
    neg = bool(v < 0)
    a = -v if neg else v
    # (leading zeroes are digits)
    nd = width if zero and width > 1 and not neg else 1
    lo, hi = bounds(a)
    while base ** nd <= hi and not bool(a < base ** nd):
        nd += 1
    out = []
    for i in range(nd - 1, -1, -1):
        d = (a // (base ** i)) % base
        if isinstance(d, SymInt):
            lo_, hi_ = max(d.lo, 0), min(d.hi, base - 1)
            d = mk(d.t, lo_, hi_)
        if isinstance(d, SymInt):
            e = core.ENGINE
            e.fresh_n += 1
            r = e.new_root('!d%d' % e.fresh_n, range(d.lo, d.hi + 1))
            w = max(d.t.size(), r.width + 1)
            e.assume(SymBool(z3.ZeroExt(w - r.width, r.var) == d.at(w)))
            digs = '0123456789ABCDEF' if conv == 'X' else '0123456789abcdef'
            out.append(Cell(r, {k: digs[k] for k in r.domain}).norm())
        else:
            out.append('0123456789abcdef'[d])
    pad = width - nd - (1 if neg else 0)
    if zero:
        out = ['0'] * max(0, pad) + out
        if neg:
            out = ['-'] + out
    else:
        if neg:
            out = ['-'] + out
        out = [' '] * max(0, pad) + out
    return mkstr(out)


class SymStr:
    __slots__ = ('_c',)

    def __init__(self, cells):
        self._c = cells

    @property
    def cells(self):
        c = self._c
        for x in c:
            if isinstance(x, Opaque):
                out = []
                for y in c:
                    if isinstance(y, Opaque):
                        if isinstance(y.value, (SymInt, SymBool)):
                            t = int_text(y.value, y.spec)
                        else:
                            t = format(full_concrete(y.value), y.spec)
                        out.extend(t if isinstance(t, str) else t.cells)
                    else:
                        out.append(y)
                self._c = c = tuple(out)
                break
        return c

    def raw(self):
        return self._c

    def concrete(self):
        out = []
        e = core.ENGINE
        for c in self.cells:
            if isinstance(c, Cell):
                o = c.ordv()
                out.append(chr(e.concretize(o)))
            else:
                out.append(c)
        return ''.join(out)

    def __repr__(self):
        return '\ue000str\ue001'
    __str__ = __repr__

    def __format__(self, spec):
        return '\ue000str\ue001'

    def __hash__(self):
        return hash(self.concrete())

    def __len__(self):
        return len(self.cells)

    def __bool__(self):
        return len(self.cells) > 0

    def __iter__(self):
        for c in self.cells:
            yield c if isinstance(c, str) else mkstr((c,))

    def __getitem__(self, i):
        c = self.cells
        if isinstance(i, slice):
            return mkstr(c[i])
        if isinstance(i, SymInt):
            i = core.ENGINE.concretize(i)
        x = c[i]
        return x if isinstance(x, str) else mkstr((x,))

    def __add__(self, o):
        if isinstance(o, str):
            return SymStr(self._c + tuple(o)) if o else self
        if isinstance(o, SymStr):
            return SymStr(self._c + o._c)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr(tuple(o) + self._c) if o else self
        return NotImplemented

    def __mul__(self, n):
        if isinstance(n, SymInt):
            n = core.ENGINE.concretize(n)
        return mkstr(self.cells * n)
    __rmul__ = __mul__

    def __mod__(self, o):
        return self.concrete() % o

    def __eq__(self, o):
        if isinstance(o, str):
            c = self.cells
            if len(o) != len(c):
                return False
            conds = []
            for a, b in zip(c, o):
                r = (a == b) if isinstance(a, str) else a.eq(b)
                if r is False:
                    return False
                conds.append(r)
            return b_and(*conds)
        if isinstance(o, SymStr):
            c, d = self.cells, o.cells
            if len(d) != len(c):
                return False
            conds = []
            for a, b in zip(c, d):
                r = cell_eq(a, b)
                if r is False:
                    return False
                conds.append(r)
            return b_and(*conds)
        return False

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def _lex(self, o):
        """(lt, eq) as conditions"""
        c, d = self.cells, cells_of(o)
        lt, eq = False, True
        for a, b in zip(c, d):
            ca = ord(a) if isinstance(a, str) else a.ordv()
            cb = ord(b) if isinstance(b, str) else b.ordv()
            lt = b_or(lt, b_and(eq, ca < cb))
            eq = b_and(eq, ca == cb)
        if len(c) < len(d):
            lt = b_or(lt, eq)
        if len(c) != len(d):
            eq = False
        return lt, eq

    def __lt__(self, o):
        return self._lex(o)[0]

    def __le__(self, o):
        return b_or(*self._lex(o))

    def __gt__(self, o):
        return b_not(b_or(*self._lex(o)))

    def __ge__(self, o):
        return b_not(self._lex(o)[0])

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        c = self.cells
        d = cells_of(o)
        n = len(d)
        conds = []
        for i in range(len(c) - n + 1):
            conds.append(b_and(*[cell_eq(a, b) for a, b in zip(c[i:i + n], d)]) if n else True)
        return b_or(*conds)

    # -- per-character methods
    def _map(self, f):
        out = []
        for c in self.cells:
            out.append(f(c) if isinstance(c, str) else c.map(f))
        return mkstr(out)

    def upper(self):
        return self._map(str.upper)

    def lower(self):
        return self._map(str.lower)

    def swapcase(self):
        return self._map(str.swapcase)

    def casefold(self):
        return self._map(str.casefold)

    def _all(self, f):
        c = self.cells
        if not c:
            return False
        return b_and(*[(f(x) if isinstance(x, str) else x.pred(f)) for x in c])

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isprintable(self):
        return b_and(*[(x.isprintable() if isinstance(x, str) else x.pred(str.isprintable)) for x in self.cells])

    def isascii(self):
        return b_and(*[(x.isascii() if isinstance(x, str) else x.pred(str.isascii)) for x in self.cells])

    def isidentifier(self):
        c = self.cells
        f0 = str.isidentifier
        f1 = lambda ch: ('a' + ch).isidentifier()
        return b_and(*[((f0 if i == 0 else f1)(x) if isinstance(x, str) else x.pred(f0 if i == 0 else f1))
                       for i, x in enumerate(c)])

    def startswith(self, p, start=0, end=None):
        if start or end is not None:
            return self[start:end].startswith(p) if not isinstance(self[start:end], str) else self[start:end].startswith(p)
        if isinstance(p, tuple):
            return b_or(*[self.startswith(x) for x in p])
        d = cells_of(p)
        c = self.cells
        if len(d) > len(c):
            return False
        return b_and(*[cell_eq(a, b) for a, b in zip(c, d)])

    def endswith(self, p, start=0, end=None):
        if start or end is not None:
            return self[start:end].endswith(p)
        if isinstance(p, tuple):
            return b_or(*[self.endswith(x) for x in p])
        d = cells_of(p)
        c = self.cells
        if len(d) > len(c):
            return False
        if not d:
            return True
        return b_and(*[cell_eq(a, b) for a, b in zip(c[-len(d):], d)])

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def _find(self, sub, start=0, end=None):
        c = self.cells
        d = cells_of(sub)
        n = len(d)
        s, e, _ = slice(start, end).indices(len(c))
        for i in range(s, e - n + 1):
            if bool(b_and(*[cell_eq(a, b) for a, b in zip(c[i:i + n], d)]) if n else True):
                return i
        return -1

    def find(self, sub, start=0, end=None):
        return self._find(sub, start, end)

    def index(self, sub, start=0, end=None):
        r = self._find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=0, end=None):
        if len(sub) == 1:
            n = 0
            for c in self[start:end]:
                n = n + as_int(ite(c == sub, 1, 0))
            return n
        return self.concrete().count(full_concrete(sub), start, end)

    def _inset(self, ch, chars):
        """ch (1-char) whitespace or in chars"""
        if chars is None:
            return ch.isspace()
        return b_or(*[ch == x for x in chars])

    def lstrip(self, chars=None):
        s = self
        while len(s) and bool(s._inset(s[0], chars) if isinstance(s, SymStr) else SymStr._inset(None, s[0], chars)):
            s = s[1:]
        return s

    def rstrip(self, chars=None):
        s = self
        while len(s) and bool(SymStr._inset(None, s[-1], chars)):
            s = s[:-1]
        return s

    def strip(self, chars=None):
        s = self.lstrip(chars)
        if isinstance(s, SymStr):
            return s.rstrip(chars)
        return s.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        out = []
        cur = []
        cs = list(self)
        if sep is None:
            for k, ch in enumerate(cs):
                if bool(ch.isspace()):
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                    continue
                if maxsplit >= 0 and len(out) >= maxsplit and not cur:
                    out.append(mkstr(self.cells[k:]).rstrip())
                    return out
                cur.extend(cells_of(ch))
            if cur:
                out.append(mkstr(cur))
            return out
        n = len(sep)
        i = 0
        while i < len(cs):
            if (maxsplit < 0 or len(out) < maxsplit) and i + n <= len(cs) and \
                    bool(mkstr(self.cells[i:i + n]) == sep):
                out.append(mkstr(cur))
                cur = []
                i += n
                continue
            cur.extend(cells_of(cs[i]))
            i += 1
        out.append(mkstr(cur))
        return out

    def splitlines(self, keepends=False):
        out = []
        cur = []
        cs = list(self)
        i = 0
        while i < len(cs):
            ch = cs[i]
            if bool(b_or(*[ch == x for x in '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'])):
                end = [ch]
                if bool(ch == '\r') and i + 1 < len(cs) and bool(cs[i + 1] == '\n'):
                    i += 1
                    end.append('\n')
                if keepends:
                    for x in end:
                        cur.extend(cells_of(x))
                out.append(mkstr(cur))
                cur = []
            else:
                cur.extend(cells_of(ch))
            i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def partition(self, sep):
        i = self._find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        n = len(sep)
        for i in range(len(self) - n, -1, -1):
            if bool(self[i:i + n] == sep):
                return (self[:i], sep, self[i + n:])
        return ('', '', self)

    def replace(self, old, new, count=-1):
        out = []
        i = 0
        c = self.cells
        n = len(old)
        if n == 0:
            return self.concrete().replace(old, new, count)
        while i < len(c):
            if count != 0 and i + n <= len(c) and bool(mkstr(c[i:i + n]) == old):
                out.extend(cells_of(new))
                i += n
                count -= 1
                continue
            out.append(c[i])
            i += 1
        return mkstr(out)

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out.extend(self.cells)
            first = False
            out.extend(cells_of(x))
        return mkstr(out)

    def zfill(self, w):
        c = self.cells
        if len(c) >= w:
            return self
        if bool(b_or(self[0] == '-', self[0] == '+')):
            return mkstr((c[0],) + ('0',) * (w - len(c)) + c[1:])
        return mkstr(('0',) * (w - len(c)) + c)

    def rjust(self, w, f=' '):
        c = self.cells
        return mkstr((f,) * max(0, w - len(c)) + c)

    def ljust(self, w, f=' '):
        c = self.cells
        return mkstr(c + (f,) * max(0, w - len(c)))

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        c = self.cells
        if enc in ('ascii', 'us-ascii', 'utf-8', 'utf8', 'latin-1', 'latin1', 'iso-8859-1'):
            ascii_ = b_and(*[(ord(x) < 128 if isinstance(x, str) else x.pred(lambda ch: ord(ch) < 128)) for x in c])
            if bool(ascii_):
                return SymBytes([[ord(x) if isinstance(x, str) else x.ordv() for x in c]], False)
            return self.concrete().encode(encoding, errors)
        codecs = {'utf16': (2, True, 'little'), 'utf-16': (2, True, 'little'), 'utf-16-le': (2, False, 'little'),
                  'utf-16le': (2, False, 'little'), 'utf-16-be': (2, False, 'big'), 'utf-16be': (2, False, 'big'),
                  'utf32': (4, True, 'little'), 'utf-32': (4, True, 'little'), 'utf-32-le': (4, False, 'little'),
                  'utf-32-be': (4, False, 'big')}
        if enc in codecs:
            size, bom, order = codecs[enc]
            out = []
            if bom:
                out += list(''.encode(enc))
            for x in c:
                o = ord(x) if isinstance(x, str) else x.ordv()
                if bool(o > 0xd7ff):
                    return self.concrete().encode(encoding, errors)
                bs = [(o >> (8 * k)) & 0xff for k in range(size)]
                out += bs if order == 'little' else bs[::-1]
            return SymBytes([out], False)
        return self.concrete().encode(encoding, errors)

    def format(self, *a, **k):
        from . import models
        return models.str_format(self.concrete(), a, k)

    def __getattr__(self, name):
        if name in _STR_METHODS:
            def m(*a, **k):
                return getattr(self.concrete(), name)(*[full_concrete(x) for x in a],
                                                      **{p: full_concrete(q) for p, q in k.items()})
            return m
        raise AttributeError(name)

    def __reduce__(self):
        raise Unsupported('pickle')


# ------------------------------------------------------------------ bytes

class Run:
    __slots__ = ('v', 'n')

    def __init__(self, v, n):
        self.v = v
        self.n = n


_BYTES_METHODS = {n for n in dir(bytearray) if not n.startswith('__')}


def norm_segs(segs):
    out = []
    for s in segs:
        if isinstance(s, Run):
            if isinstance(s.n, SymInt):
                if s.n.hi <= 0:
                    continue
                out.append(s)
                continue
            s = [s.v] * max(0, s.n)
        if not s:
            continue
        if out and isinstance(out[-1], list):
            out[-1] = out[-1] + list(s)
        else:
            out.append(list(s))
    return out


class SymBytes:
    """sequence of literal segments and runs of one value with a symbolic (non-negative) length"""
    __slots__ = ('segs', 'mutable')

    def __init__(self, segs, mutable):
        self.segs = segs
        self.mutable = mutable

    @staticmethod
    def of(x, mutable=False):
        if isinstance(x, SymBytes):
            return SymBytes([s if isinstance(s, Run) else list(s) for s in x.segs], mutable)
        return SymBytes([list(x)] if len(x) else [], mutable)

    def lit(self):
        """the single literal list, or None when a symbolic run is present"""
        if not self.segs:
            return []
        if len(self.segs) == 1 and isinstance(self.segs[0], list):
            return self.segs[0]
        if any(isinstance(s, Run) for s in self.segs):
            return None
        self.segs = norm_segs(self.segs)
        return self.segs[0] if self.segs else []

    def flat(self):
        """literal list, forking on the run lengths"""
        l = self.lit()
        if l is not None:
            return l
        e = core.ENGINE
        segs = []
        for s in self.segs:
            if isinstance(s, Run):
                n = e.concretize(s.n)
                if n > 1 << 20:
                    raise Unsupported('long run')
                segs.append([s.v] * n)
            else:
                segs.append(s)
        segs = norm_segs(segs)
        if self.mutable:
            self.segs = segs
        return segs[0] if segs else []

    def slen(self):
        n = 0
        for s in self.segs:
            n = n + (s.n if isinstance(s, Run) else len(s))
        return n

    def concrete(self):
        e = core.ENGINE
        r = bytes([e.concretize(b) for b in self.flat()])
        return bytearray(r) if self.mutable else r

    def __len__(self):
        return core.ENGINE.concretize(self.slen())

    def __bool__(self):
        return bool(self.slen() != 0)

    def __iter__(self):
        return iter(list(self.flat()))

    def __repr__(self):
        return '\ue000bytes\ue001'
    __str__ = __repr__

    def __hash__(self):
        return hash(self.concrete())

    def __bytes__(self):
        return bytes(self.concrete())

    def __add__(self, o):
        o2 = tobytes(o)
        if o2 is None:
            return NotImplemented
        return SymBytes(norm_segs([s for s in self.segs] + o2.segs), self.mutable)

    def __radd__(self, o):
        o2 = tobytes(o)
        if o2 is None:
            return NotImplemented
        return SymBytes(norm_segs(o2.segs + self.segs), o2.mutable)

    def __iadd__(self, o):
        o2 = tobytes(o)
        if o2 is None:
            raise TypeError("can't concat to bytearray")
        if not self.mutable:
            return SymBytes(norm_segs(self.segs + o2.segs), False)
        for s in o2.segs:
            if isinstance(s, list):
                if self.segs and isinstance(self.segs[-1], list):
                    self.segs[-1].extend(s)
                else:
                    self.segs.append(list(s))
            else:
                self.segs.extend(norm_segs([s]))
        return self

    def __mul__(self, n):
        n = as_int(n)
        if isinstance(n, SymInt):
            l = self.lit()
            if l is not None and len(l) == 1:
                return SymBytes(norm_segs([Run(l[0], clamp0(n))]), self.mutable)
            n = core.ENGINE.concretize(n)
        return SymBytes(norm_segs(list(self.segs) * max(0, n)), self.mutable)
    __rmul__ = __mul__

    # -- positions
    def _locate(self, i):
        """(segment index, offset) of position i; raises IndexError; forks"""
        n = self.slen()
        if bool(i < 0):
            i = i + n
        if bool(b_or(i < 0, i >= n)):
            raise IndexError('bytearray index out of range')
        pos = 0
        for k, s in enumerate(self.segs):
            ln = s.n if isinstance(s, Run) else len(s)
            if bool(i < pos + ln):
                off = i - pos
                if isinstance(s, list) and isinstance(off, SymInt):
                    off = core.ENGINE.concretize(off)
                return k, off
            pos = pos + ln
        raise IndexError('bytearray index out of range')

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        l = self.lit()
        i = as_int(i)
        if l is not None:
            if isinstance(i, SymInt):
                return select(l, i)
            if not isinstance(i, int):
                i = i.__index__()
            try:
                return l[i]
            except IndexError:
                raise IndexError('index out of range') from None
        k, off = self._locate(i)
        s = self.segs[k]
        return s.v if isinstance(s, Run) else s[off]

    def _slice(self, sl):
        l = self.lit()
        st, en, step = as_int(sl.start), as_int(sl.stop), sl.step
        if l is not None:
            e = core.ENGINE
            st = e.concretize(st) if isinstance(st, SymInt) else st
            en = e.concretize(en) if isinstance(en, SymInt) else en
            return SymBytes(norm_segs([l[slice(st, en, step)]]), self.mutable)
        if step not in (None, 1):
            return SymBytes.of(self.flat()[sl], self.mutable)
        n = self.slen()
        st = 0 if st is None else st
        en = n if en is None else en
        if bool(st < 0):
            st = st + n
            if bool(st < 0):
                st = 0
        if bool(en < 0):
            en = en + n
            if bool(en < 0):
                en = 0
        if bool(en > n):
            en = n
        if bool(st >= en):
            return SymBytes([], self.mutable)
        out = []
        pos = 0
        for s in self.segs:
            ln = s.n if isinstance(s, Run) else len(s)
            a, b = 0, ln
            if bool(st > pos):
                a = st - pos
            if bool(a >= ln):
                pos = pos + ln
                continue
            if bool(en < pos + ln):
                b = en - pos
            if bool(b > a):
                if isinstance(s, Run):
                    out.append(Run(s.v, b - a))
                else:
                    a = core.ENGINE.concretize(a) if isinstance(a, SymInt) else a
                    b = core.ENGINE.concretize(b) if isinstance(b, SymInt) else b
                    out.append(s[a:b])
            pos = pos + ln
            if bool(en <= pos):
                break
        return SymBytes(norm_segs(out), self.mutable)

    def _byteval(self, v):
        v = as_int(v)
        if not isinstance(v, (int, SymInt)):
            raise TypeError('an integer is required')
        if bool(b_or(v < 0, v > 255)):
            raise ValueError('byte must be in range(0, 256)')
        if isinstance(v, SymInt) and (v.lo < 0 or v.hi > 255):
            v = mk(z3.ZeroExt(1, z3.Extract(7, 0, fit_(v.t, 9))), 0, 255)
        return v

    def __setitem__(self, i, v):
        if not self.mutable:
            raise TypeError("'bytes' object does not support item assignment")
        if isinstance(i, slice):
            return self._setslice(i, v)
        v = self._byteval(v)
        l = self.lit()
        i = as_int(i)
        if l is not None:
            if isinstance(i, SymInt):
                i = core.ENGINE.concretize(i)
            if not l:
                raise IndexError('bytearray index out of range')
            try:
                l[i] = v
            except IndexError:
                raise IndexError('bytearray index out of range') from None
            return
        k, off = self._locate(i)
        s = self.segs[k]
        if isinstance(s, list):
            s[off] = v
        else:
            self.segs[k:k + 1] = [Run(s.v, off), [v], Run(s.v, s.n - off - 1)]
            self.segs = norm_segs(self.segs)

    def _setslice(self, sl, v):
        st, en, step = as_int(sl.start), as_int(sl.stop), sl.step
        e = core.ENGINE
        l = self.lit()
        v2 = tobytes(v, strict=False)
        if l is not None and v2.lit() is not None:
            st = e.concretize(st) if isinstance(st, SymInt) else st
            en = e.concretize(en) if isinstance(en, SymInt) else en
            l[slice(st, en, step)] = list(v2.lit())
            self.segs = [l] if l else []
            return
        if step not in (None, 1):
            raise Unsupported('extended slice assignment')
        n = self.slen()
        st = 0 if st is None else st
        en = n if en is None else en
        if bool(st < 0):
            st = st + n
        if bool(en < 0):
            en = en + n
        if bool(st > n):
            st = n
        if bool(en > n):
            en = n
        if bool(en < st):
            en = st
        a = self._slice(slice(0, st))
        b = self._slice(slice(en, None))
        self.segs = norm_segs(a.segs + v2.segs + b.segs)

    def __delitem__(self, i):
        if isinstance(i, slice):
            self._setslice(i, b'')
        else:
            l = self.flat()
            i = core.ENGINE.concretize(i)
            del l[i]
            self.segs = [l] if l else []

    def at(self, i, w):
        """term of the byte at (z3, width w, in range) position i; no forks"""
        pos = 0
        pieces = []
        for s in self.segs:
            ln = s.n if isinstance(s, Run) else len(s)
            pieces.append((pos, ln, s))
            pos = pos + ln
        t = z3.BitVecVal(0, 8)
        for p, ln, s in reversed(pieces):
            if isinstance(s, Run):
                val = byte_term(s.v)
            else:
                base = i_term(p, w)
                terms = [byte_term(x) for x in s]
                val = terms[-1]
                for k in range(len(s) - 2, -1, -1):
                    if not val.eq(terms[k]):
                        val = z3.If(i == base + z3.BitVecVal(k, w), terms[k], val)
            end = i_term(p + ln, w)
            t = z3.If(i < end, val, t)
        return t

    def eq(self, o):
        """condition self == o over all lengths and contents (no forks)"""
        o = tobytes(o)
        if o is None:
            return False
        a, b = self.lit(), o.lit()
        if a is not None and b is not None:
            if len(a) != len(b):
                return False
            conds = []
            for x, y in zip(a, b):
                r = x == y
                if r is False:
                    return False
                if r is not True:
                    conds.append(r)
            return b_and(*conds)
        return None

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)):
            return False
        r = self.eq(o)
        if r is None:
            if bool(self.slen() != tobytes(o).slen()):
                return False
            a, b = self.flat(), tobytes(o).flat()
            return SymBytes([a], False).eq(SymBytes([b], False))
        return r

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def contains(self, o):
        o = as_int(o)
        if isinstance(o, (int, SymInt)):
            return b_or(*[x == o for x in self.flat()])
        p, l = tobytes(o).flat(), self.flat()
        return b_or(*[b_and(*[x == y for x, y in zip(l[i:], p)]) for i in range(len(l) - len(p) + 1)])

    def __contains__(self, o):
        return bool(self.contains(o))

    # -- methods
    def append(self, v):
        v = self._byteval(v)
        self += SymBytes([[v]], False)

    def extend(self, o):
        self += tobytes(o, strict=False)

    def insert(self, i, v):
        self._setslice(slice(i, i), SymBytes([[self._byteval(v)]], False))

    def pop(self, i=-1):
        l = self.flat()
        v = l.pop(core.ENGINE.concretize(i))
        self.segs = [l] if l else []
        return v

    def clear(self):
        self.segs = []

    def copy(self):
        return SymBytes.of(self, self.mutable)

    def reverse(self):
        l = self.flat()
        l.reverse()
        self.segs = [l] if l else []

    def ljust(self, w, f=b' '):
        n = self.slen()
        pad = w - n
        return self + SymBytes.of(tobytes(f), False) * clamp0(pad)

    def rjust(self, w, f=b' '):
        pad = w - self.slen()
        return SymBytes.of(tobytes(f) * clamp0(pad), self.mutable) + self

    def startswith(self, p, *a):
        if a:
            return self[slice(*a)].startswith(p)
        if isinstance(p, tuple):
            return b_or(*[self.startswith(x) for x in p])
        p = tobytes(p).flat()
        l = self.flat()
        return b_and(len(l) >= len(p), *[x == y for x, y in zip(l, p)])

    def _at(self, l, i, p):
        return b_and(*[x == y for x, y in zip(l[i:], p)]) if i + len(p) <= len(l) else False

    def _pat(self, o):
        o = as_int(o)
        return [o] if isinstance(o, (int, SymInt)) else tobytes(o).flat()

    def replace(self, old, new, count=-1):
        p, l = tobytes(old).flat(), self.flat()
        new = tobytes(new).flat()
        if not p:
            r = bytes(self.concrete()).replace(b'', bytes(full_concrete(new)), count)
            return SymBytes.of(r, self.mutable)
        out = []
        i = 0
        while i < len(l):
            if count != 0 and bool(self._at(l, i, p)):
                out.extend(new)
                i += len(p)
                count -= 1
            else:
                out.append(l[i])
                i += 1
        return SymBytes([out] if out else [], self.mutable)

    def find(self, o, start=0, end=None):
        p, l = self._pat(o), self.flat()
        start, end, _ = slice(start, end).indices(len(l))
        for i in range(start, end - len(p) + 1):
            if bool(self._at(l, i, p)):
                return i
        return -1

    def rfind(self, o, start=0, end=None):
        p, l = self._pat(o), self.flat()
        start, end, _ = slice(start, end).indices(len(l))
        for i in range(end - len(p), start - 1, -1):
            if bool(self._at(l, i, p)):
                return i
        return -1

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError('subsection not found')
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError('subsection not found')
        return i

    def count(self, o, *a):
        p, l = self._pat(o), self.flat()
        if len(p) == 1 and not a:
            n = 0
            for x in l:
                n = n + core.ite(x == p[0], 1, 0)
            return n
        return self.concrete().count(bytes(full_concrete(p)), *a)

    def _inset(self, x, cs):
        return b_or(*[x == c for c in cs])

    def lstrip(self, cs=None):
        cs = tobytes(b' \t\n\r\x0b\f' if cs is None else cs).flat()
        l = self.flat()
        i = 0
        while i < len(l) and bool(self._inset(l[i], cs)):
            i += 1
        return SymBytes([l[i:]] if l[i:] else [], self.mutable)

    def rstrip(self, cs=None):
        cs = tobytes(b' \t\n\r\x0b\f' if cs is None else cs).flat()
        l = self.flat()
        i = len(l)
        while i > 0 and bool(self._inset(l[i - 1], cs)):
            i -= 1
        return SymBytes([l[:i]] if i else [], self.mutable)

    def strip(self, cs=None):
        return self.lstrip(cs).rstrip(cs)

    def translate(self, table, delete=b''):
        if table is None or len(delete):
            return SymBytes.of(self.concrete().translate(table, delete), self.mutable)
        l = [select(list(table), x) if isinstance(x, SymInt) else table[x] for x in self.flat()]
        return SymBytes([l] if l else [], self.mutable)

    def endswith(self, p, *a):
        if a:
            return self[slice(*a)].endswith(p)
        if isinstance(p, tuple):
            return b_or(*[self.endswith(x) for x in p])
        p = tobytes(p).flat()
        l = self.flat()
        return b_and(len(l) >= len(p), *[x == y for x, y in zip(l[len(l) - len(p):], p)])

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out += self.segs
            first = False
            out += tobytes(x).segs
        return SymBytes(norm_segs(out), self.mutable)

    def decode(self, encoding='utf-8', errors='strict'):
        l = self.flat()
        if bool(b_and(*[x < 128 for x in l])):
            out = []
            for x in l:
                if isinstance(x, SymInt):
                    x = mk(x.t, max(0, x.lo), min(127, x.hi))
                out.extend(cells_of(char_from_int(x)))
            return mkstr(out)
        return self.concrete().decode(encoding, errors)

    def hex(self, *a):
        return self.concrete().hex(*a)

    def __getattr__(self, name):
        if name in _BYTES_METHODS:
            def m(*a, **k):
                c = self.concrete()
                r = getattr(c, name)(*[full_concrete(x) for x in a], **{p: full_concrete(q) for p, q in k.items()})
                if self.mutable:
                    self.segs = [list(c)] if c else []
                return r
            return m
        raise AttributeError(name)


def fit_(t, w):
    return core.fit(t, w)


def clamp0(n):
    """max(0, n)"""
    n = as_int(n)
    if not isinstance(n, SymInt):
        return max(0, n)
    if n.lo >= 0:
        return n
    if bool(n < 0):
        return 0
    return mk(n.t, 0, n.hi)


def byte_term(v):
    if isinstance(v, SymInt):
        return core.fit(v.t, 8)
    return z3.BitVecVal(v, 8)


def select(l, i):
    """l[i] for a symbolic index; raises IndexError on the paths that would"""
    n = len(l)
    if bool(b_or(i < -n, i >= n)):
        raise IndexError('index out of range')
    if bool(i < 0):
        i = i + n
    if all(isinstance(x, (int, SymInt)) for x in l):
        lo = max(0, i.lo) if isinstance(i, SymInt) else i
        hi = min(n - 1, i.hi) if isinstance(i, SymInt) else i
        if not isinstance(i, SymInt):
            return l[i]
        r = l[hi]
        for k in range(hi - 1, lo - 1, -1):
            r = ite(i == k, l[k], r)
        return r
    return l[core.ENGINE.concretize(i)]


def tobytes(o, strict=True):
    if isinstance(o, SymBytes):
        return o
    if isinstance(o, (bytes, bytearray, memoryview)):
        return SymBytes([list(o)] if len(o) else [], isinstance(o, bytearray))
    if not strict:
        from . import models
        return tobytes(models.m_bytes(o))
    return None


def bytes_equal(a, b):
    """condition a == b: equal lengths and no differing position.

    With symbolic run lengths the position is a fresh variable, so the result is only meaningful
    when it is proved (refuted), never when it is assumed."""
    a, b = tobytes(a), tobytes(b)
    r = a.eq(b)
    if r is not None:
        return r
    la, lb = a.slen(), b.slen()
    w = max(width_for(*bounds(la)), width_for(*bounds(lb))) + 2
    e = core.ENGINE
    e.fresh_n += 1
    i = z3.BitVec('!i%d' % e.fresh_n, w)
    leq = b_term(la == lb)
    inr = z3.And(i >= 0, i < i_term(la, w))
    return SymBool(z3.And(leq, z3.Implies(inr, a.at(i, w) == b.at(i, w))))


def bytes_equal_aligned(a, b):
    """a list of conditions that together imply a == b, or None when the segments do not line up.

    Runs known to be empty on this path are dropped first."""
    e = core.ENGINE

    def simp(x):
        out = []
        for s in tobytes(x).segs:
            if isinstance(s, Run) and isinstance(s.n, SymInt) and e.prove(s.n <= 0) is None:
                continue
            out.append(s)
        return norm_segs(out)
    sa, sb = simp(a), simp(b)
    if len(sa) != len(sb):
        return None
    out = []
    for x, y in zip(sa, sb):
        if isinstance(x, Run) != isinstance(y, Run):
            return None
        if isinstance(x, Run):
            out.append(x.n == y.n)
            out.append(x.v == y.v)
        else:
            if len(x) != len(y):
                return None
            out += [p == q for p, q in zip(x, y) if p is not q]
    return [c for c in out if isinstance(c, SymBool) or not c]


# ------------------------------------------------------------------- dict

class _K:
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymStr, SymBytes))


def has_sym(x, depth=3):
    if isinstance(x, (SymInt, SymBool, SymStr, SymBytes)) or type(x).__name__ == 'SymSet':
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(y, depth - 1) or has_sym(k, 1) for k, y in x.items())
    return False


def full_concrete(x):
    if isinstance(x, (SymInt, SymBool)):
        if isinstance(x, SymBool):
            return bool(x)
        return core.ENGINE.concretize(x)
    if isinstance(x, (SymStr, SymBytes)) or type(x).__name__ == 'SymSet':
        return x.concrete()
    if type(x) is list:
        return [full_concrete(y) for y in x]
    if type(x) is tuple:
        return tuple(full_concrete(y) for y in x)
    if type(x) in (dict, SymDict):
        return {full_concrete(k): full_concrete(v) for k, v in x.items()}
    return x


def sym_eq(a, b):
    """a == b as a condition"""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and (has_sym(a) or has_sym(b)):
        if len(a) != len(b):
            return False
        return b_and(*[sym_eq(x, y) for x, y in zip(a, b)])
    return a == b


_MISS = object()


class SymDict(dict):
    """dict whose keys and lookups may be symbolic"""
    __slots__ = ('nsym',)

    def __init__(self, *a, **k):
        dict.__init__(self)
        self.nsym = 0
        if a or k:
            self.update(*a, **k)

    def _find(self, key):
        """the stored key equal to key (forks), or _MISS"""
        if not has_sym(key):
            if dict.__contains__(self, key):
                if not self.nsym:
                    return key
                return key
            if not self.nsym:
                return _MISS
            for k in dict.keys(self):
                if type(k) is _K and bool(sym_eq(k.k, key)):
                    return k
            return _MISS
        if isinstance(key, SymBool):
            key = bool(key)
            return self._find(key)
        for k in dict.keys(self):
            kk = k.k if type(k) is _K else k
            c = sym_eq(key, kk)
            if c is False or c is NotImplemented:
                continue
            if bool(c):
                return k
        return _MISS

    def has(self, key):
        if not has_sym(key):
            if dict.__contains__(self, key):
                return True
            if not self.nsym:
                return False
            return b_or(*[sym_eq(k.k, key) for k in dict.keys(self) if type(k) is _K])
        return b_or(*[sym_eq(key, k.k if type(k) is _K else k) for k in dict.keys(self)])

    def __contains__(self, key):
        return bool(self.has(key))

    def _merged(self, key):
        """(found, value) when every candidate value is an int and can be merged; else None"""
        if isinstance(key, SymStr) or isinstance(key, SymInt):
            cands = []
            for k, v in dict.items(self):
                kk = k.k if type(k) is _K else k
                c = sym_eq(key, kk)
                if c is False or c is NotImplemented:
                    continue
                if not isinstance(v, (int, SymInt)) or isinstance(v, bool):
                    return None
                cands.append((c, v))
            if not cands:
                return (False, None)
            if len(cands) > 400:
                return None
            found = b_or(*[c for c, v in cands])
            # a single-root key is a plain table
            if isinstance(key, SymStr):
                roots = {id(c.root): c.root for c in key.cells if isinstance(c, Cell)}
                if len(roots) == 1 and all(not isinstance(v, SymInt) for c, v in cands) and not self.nsym:
                    r = next(iter(roots.values()))
                    if not bool(found):
                        return (False, None)
                    tab = {}
                    for rv in root_dom(r):
                        s = ''.join(c if isinstance(c, str) else c.tab[rv] for c in key.cells)
                        if dict.__contains__(self, s):
                            tab[rv] = dict.__getitem__(self, s)
                        else:
                            return None
                    return (True, table_int(r, tab))
            if not bool(found):
                return (False, None)
            val = cands[-1][1]
            for c, v in reversed(cands[:-1]):
                val = ite(c, v, val)
            return (True, val)
        return None

    def _lookup(self, key):
        if has_sym(key):
            m = self._merged(key)
            if m is not None:
                return m[1] if m[0] else _MISS
        k = self._find(key)
        if k is _MISS:
            return _MISS
        return dict.__getitem__(self, k)

    def __getitem__(self, key):
        v = self._lookup(key)
        if v is _MISS:
            missing = getattr(type(self), '__missing__', None)
            if missing is not None:
                return missing(self, key)
            raise KeyError(key)
        return v

    def __setitem__(self, key, v):
        k = self._find(key)
        if k is _MISS:
            if has_sym(key):
                k = _K(key)
                self.nsym += 1
            else:
                k = key
        dict.__setitem__(self, k, v)

    def __delitem__(self, key):
        k = self._find(key)
        if k is _MISS:
            raise KeyError(key)
        if type(k) is _K:
            self.nsym -= 1
        dict.__delitem__(self, k)

    def get(self, key, default=None):
        v = self._lookup(key)
        return default if v is _MISS else v

    def setdefault(self, key, default=None):
        v = self._lookup(key)
        if v is _MISS:
            self[key] = default
            return default
        return v

    def pop(self, key, *d):
        k = self._find(key)
        if k is _MISS:
            if d:
                return d[0]
            raise KeyError(key)
        if type(k) is _K:
            self.nsym -= 1
        return dict.pop(self, k)

    def update(self, *a, **k):
        if a:
            o = a[0]
            if isinstance(o, SymDict):
                for kk, v in list(o.items()):
                    self[kk] = v
            elif hasattr(o, 'keys'):
                for kk in o.keys():
                    self[kk] = o[kk]
            else:
                for kk, v in o:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def copy(self):
        return SymDict(self)

    def __copy__(self):
        return SymDict(self)

    def __iter__(self):
        if not self.nsym:
            return dict.__iter__(self)
        return iter([k.k if type(k) is _K else k for k in dict.keys(self)])

    def keys(self):
        if not self.nsym:
            return dict.keys(self)
        return list(iter(self))

    def items(self):
        if not self.nsym:
            return dict.items(self)
        return [((k.k if type(k) is _K else k), v) for k, v in dict.items(self)]

    def __reversed__(self):
        return reversed(list(iter(self)))

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o:
                return False
            if not bool(sym_eq(v, o[k])):
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)
    __hash__ = None

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r
