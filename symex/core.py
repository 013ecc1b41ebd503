"""Symbolic values and the path explorer.

The code under test runs as ordinary Python on these values.  Every value is
exact: SymInt is a z3 bit-vector whose width grows with the interval of the
value, so it never wraps where a Python int would not; SymStr is a fixed number
of cells, each a concrete character or a finite-domain symbolic one.  A truth
test on a symbolic value asks the solver which outcomes are feasible under the
path condition and explores each of them.
"""
import time
import z3

CTX = z3.main_ctx()


class EngineControl(BaseException):
    """Not an Exception: the code under test must never swallow it."""


class PathInfeasible(EngineControl):
    pass


class PathAbort(EngineControl):
    """The path cannot be followed further (unsupported operation, cap, timeout)."""


class Unsupported(PathAbort):
    pass


class Root:
    __slots__ = ('name', 'var', 'domain', 'width', 'values')

    def __init__(self, name, domain, values=None):
        self.name = name
        self.domain = tuple(sorted(domain))
        self.width = max(1, max(self.domain).bit_length())
        self.var = z3.BitVec(name, self.width)
        self.values = values  # what a domain element stands for, for replay


def _runs(dom, subset):
    """ranges [a,b] covering exactly subset within dom (gaps of dom are don't-cares)"""
    out = []
    cur = None
    for v in dom:
        if v in subset:
            if cur is None:
                cur = [v, v]
            else:
                cur[1] = v
        elif cur is not None:
            out.append(cur)
            cur = None
    if cur is not None:
        out.append(cur)
    return out


def root_in(root, subset):
    """z3 condition root in subset, over the root's full domain"""
    dom = root.domain
    if not subset:
        return z3.BoolVal(False)
    rs = _runs(dom, subset)
    parts = []
    for a, b in rs:
        if a == b:
            parts.append(root.var == a)
        elif a == dom[0] and b == dom[-1]:
            return z3.BoolVal(True)
        elif a == dom[0]:
            parts.append(z3.ULE(root.var, b))
        elif b == dom[-1]:
            parts.append(z3.UGE(root.var, a))
        else:
            parts.append(z3.And(z3.UGE(root.var, a), z3.ULE(root.var, b)))
    return parts[0] if len(parts) == 1 else z3.Or(parts)


def root_dom(root):
    e = ENGINE
    if e is None:
        return root.domain
    return e.dom.get(root.name, root.domain)


ENGINE = None


def engine():
    return ENGINE


# --------------------------------------------------------------------- bool

class SymBool:
    """meta: conjunction of (root, frozenset) facts equivalent to t, or None"""
    __slots__ = ('t', 'meta')

    def __init__(self, t, meta=None):
        self.t = t
        self.meta = meta

    def __bool__(self):
        return ENGINE.branch(self)

    def __invert__(self):
        if self.meta is not None and len(self.meta) == 1:
            r, s = self.meta[0]
            return SymBool(z3.Not(self.t), ((r, frozenset(r.domain) - s),))
        return SymBool(z3.Not(self.t))

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            if isinstance(o, bool):
                return self if o else ~self
            return SymBool(self.t == o.t)
        return as_int(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return b_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def _i(self):
        return ite(self, 1, 0)

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __lshift__(self, o):
        return self._i() << o

    def __repr__(self):
        return '\ue000bool\ue001'
    __str__ = __repr__


def b_not(x):
    if isinstance(x, SymBool):
        return ~x
    return not x


def b_term(x):
    return x.t if isinstance(x, SymBool) else z3.BoolVal(bool(x))


def b_and(*xs):
    syms = []
    for x in xs:
        if isinstance(x, SymBool):
            syms.append(x)
        elif not x:
            return False
    if not syms:
        return True
    if len(syms) == 1:
        return syms[0]
    meta = []
    for s in syms:
        if s.meta is None:
            meta = None
            break
        meta.extend(s.meta)
    return SymBool(z3.And([s.t for s in syms]), tuple(meta) if meta is not None else None)


def b_or(*xs):
    syms = []
    for x in xs:
        if isinstance(x, SymBool):
            syms.append(x)
        elif x:
            return True
    if not syms:
        return False
    if len(syms) == 1:
        return syms[0]
    # same single root: union
    r0 = None
    sub = frozenset()
    for s in syms:
        if s.meta is None or len(s.meta) != 1:
            r0 = None
            break
        r, ss = s.meta[0]
        if r0 is None:
            r0 = r
        elif r0 is not r:
            r0 = None
            break
        sub |= ss
    if r0 is not None:
        return root_cond(r0, sub)
    return SymBool(z3.Or([s.t for s in syms]))


def root_cond(root, subset):
    """condition root in subset; decided statically on the current path's domain when possible"""
    dom = root_dom(root)
    n = 0
    for v in dom:
        if v in subset:
            n += 1
    if n == 0:
        return False
    if n == len(dom):
        return True
    subset = frozenset(v for v in root.domain if v in subset)
    return SymBool(root_in(root, subset), ((root, subset),))


# ---------------------------------------------------------------------- int

def width_for(lo, hi):
    """signed width holding [lo,hi]"""
    w = 1
    if hi > 0:
        w = hi.bit_length() + 1
    if lo < 0:
        w2 = (-lo - 1).bit_length() + 1
        if w2 > w:
            w = w2
    return w


MAXW = 4096


def fit(t, w):
    s = t.size()
    if s == w:
        return t
    if s < w:
        return z3.SignExt(w - s, t)
    return z3.Extract(w - 1, 0, t)


class SymInt:
    """value = signed(t), always within [lo,hi]"""
    __slots__ = ('t', 'lo', 'hi')

    def __init__(self, t, lo, hi):
        self.t = t
        self.lo = lo
        self.hi = hi

    # --- helpers
    def at(self, w):
        return fit(self.t, w)

    def __repr__(self):
        return '\ue000int\ue001'
    __str__ = __repr__

    def __format__(self, spec):
        return '\ue000int\ue001'

    def __hash__(self):
        return hash(ENGINE.concretize(self))

    def __index__(self):
        return ENGINE.concretize(self)
    __int__ = __index__

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __float__(self):
        return float(ENGINE.concretize(self))

    # --- arithmetic
    def __add__(self, o):
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, SymInt):
            lo, hi = self.lo + o.lo, self.hi + o.hi
            w = width_for(lo, hi)
            w = max(w, self.t.size(), o.t.size())
            return mk(self.at(w) + o.at(w), lo, hi)
        if isinstance(o, int):
            if o == 0:
                return self
            lo, hi = self.lo + o, self.hi + o
            w = max(width_for(lo, hi), self.t.size(), width_for(o, o))
            return mk(self.at(w) + z3.BitVecVal(o, w), lo, hi)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, SymInt):
            if o.t.eq(self.t):
                return 0
            lo, hi = self.lo - o.hi, self.hi - o.lo
            w = max(width_for(lo, hi), self.t.size(), o.t.size())
            return mk(self.at(w) - o.at(w), lo, hi)
        if isinstance(o, int):
            return self.__add__(-o)
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, int):
            lo, hi = o - self.hi, o - self.lo
            w = max(width_for(lo, hi), self.t.size(), width_for(o, o))
            return mk(z3.BitVecVal(o, w) - self.at(w), lo, hi)
        return NotImplemented

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return ite(self < 0, -self, self)

    def __invert__(self):
        return -1 - self

    def __mul__(self, o):
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, SymInt):
            c = (self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi)
            lo, hi = min(c), max(c)
            w = max(width_for(lo, hi), self.t.size(), o.t.size())
            return mk(self.at(w) * o.at(w), lo, hi)
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            if o == 0:
                return 0
            if o == 1:
                return self
            if o > 0 and o & (o - 1) == 0:
                return self << (o.bit_length() - 1)
            c = (self.lo * o, self.hi * o)
            lo, hi = min(c), max(c)
            w = max(width_for(lo, hi), self.t.size(), width_for(o, o))
            return mk(self.at(w) * z3.BitVecVal(o, w), lo, hi)
        if isinstance(o, (list, tuple, bytes, bytearray, str)):
            from . import models
            return models.seq_repeat(o, self)
        return NotImplemented
    __rmul__ = __mul__

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = ENGINE.concretize(o)
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            raise ValueError('negative shift count')
        if o == 0:
            return self
        if o > MAXW:
            raise Unsupported('shift too wide')
        return mk(z3.Concat(self.t, z3.BitVecVal(0, o)), self.lo << o, self.hi << o)

    def __rlshift__(self, o):
        n = ENGINE.concretize(self)
        return o << n

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = ENGINE.concretize(o)
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            raise ValueError('negative shift count')
        if o == 0:
            return self
        lo, hi = self.lo >> o, self.hi >> o
        if lo == hi:
            return lo
        w = self.t.size()
        if o >= w:
            o = w - 1
        return mk(z3.Extract(w - 1, o, self.t), lo, hi)

    def __rrshift__(self, o):
        n = ENGINE.concretize(self)
        return o >> n

    def __and__(self, o):
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, SymInt):
            w = max(self.t.size(), o.t.size())
            if self.lo >= 0 and o.lo >= 0:
                lo, hi = 0, min(self.hi, o.hi)
            elif self.lo >= 0:
                lo, hi = 0, self.hi
            elif o.lo >= 0:
                lo, hi = 0, o.hi
            else:
                m = max(width_for(self.lo, self.hi), width_for(o.lo, o.hi))
                lo, hi = -(1 << (m - 1)), (1 << (m - 1)) - 1
            return mk(self.at(w) & o.at(w), lo, hi)
        if isinstance(o, int):
            if o == 0:
                return 0
            if o > 0:
                k = o.bit_length()
                full = (1 << k) - 1
                if o == full and self.lo >= 0 and self.hi <= o:
                    return self
                hi = o if self.lo < 0 else min(o, self.hi)
                w = self.t.size()
                if k < w:
                    t = z3.ZeroExt(1, z3.Extract(k - 1, 0, self.t))
                else:
                    t = z3.ZeroExt(1, fit(self.t, k))
                if o != full:
                    t = t & z3.BitVecVal(o, k + 1)
                return mk(t, 0, hi)
            w = max(self.t.size(), width_for(o, o))
            if self.lo >= 0:
                lo, hi = 0, self.hi
            else:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            return mk(self.at(w) & z3.BitVecVal(o, w), lo, hi)
        return NotImplemented
    __rand__ = __and__

    def _orx(self, o, f, fi):
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            if o == 0:
                return self
            olo = ohi = o
            ow = width_for(o, o)
        elif isinstance(o, SymInt):
            olo, ohi, ow = o.lo, o.hi, o.t.size()
        else:
            return NotImplemented
        w = max(self.t.size(), ow)
        ot = z3.BitVecVal(o, w) if isinstance(o, int) else o.at(w)
        if self.lo >= 0 and olo >= 0:
            m = max(self.hi, ohi).bit_length()
            lo, hi = 0, (1 << m) - 1
            if fi == '|':
                lo = max(self.lo, olo)
        else:
            m = max(width_for(self.lo, self.hi), width_for(olo, ohi))
            lo, hi = -(1 << (m - 1)), (1 << (m - 1)) - 1
        return mk(f(self.at(w), ot), lo, hi)

    def __or__(self, o):
        return self._orx(o, lambda a, b: a | b, '|')
    __ror__ = __or__

    def __xor__(self, o):
        return self._orx(o, lambda a, b: a ^ b, '^')
    __rxor__ = __xor__

    def __floordiv__(self, o):
        if isinstance(o, SymInt):
            if o.lo <= 0 <= o.hi and bool(o == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
            return _divmod(self, o)[0]
        if isinstance(o, int):
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o > 0 and o & (o - 1) == 0:
                return self >> (o.bit_length() - 1)
            return _divmod(self, o)[0]
        return NotImplemented

    def __rfloordiv__(self, o):
        if self.lo <= 0 <= self.hi and bool(self == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        return _divmod(o, self)[0]

    def __mod__(self, o):
        if isinstance(o, SymInt):
            if o.lo <= 0 <= o.hi and bool(o == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
            return _divmod(self, o)[1]
        if isinstance(o, int):
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o > 0 and o & (o - 1) == 0:
                return self & (o - 1)
            return _divmod(self, o)[1]
        return NotImplemented

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % ENGINE.concretize(self)
        if self.lo <= 0 <= self.hi and bool(self == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        return _divmod(o, self)[1]

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return true_div(self, o)

    def __rtruediv__(self, o):
        return true_div(o, self)

    def __pow__(self, o, m=None):
        if isinstance(o, int) and 0 <= o <= 4 and m is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(ENGINE.concretize(self), o, m) if m is not None else ENGINE.concretize(self) ** o

    def __rpow__(self, o):
        return o ** ENGINE.concretize(self)

    # --- comparison
    def _cmp(self, o, f, stat):
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, (int, bool)):
            o = int(o)
            r = stat(self.lo, self.hi, o, o)
            if r is not None:
                return r
            w = max(self.t.size(), width_for(o, o))
            return SymBool(f(self.at(w), z3.BitVecVal(o, w)))
        if isinstance(o, SymInt):
            r = stat(self.lo, self.hi, o.lo, o.hi)
            if r is not None:
                return r
            w = max(self.t.size(), o.t.size())
            return SymBool(f(self.at(w), o.at(w)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b,
                         lambda al, ah, bl, bh: True if ah < bl else (False if al >= bh else None))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b,
                         lambda al, ah, bl, bh: True if ah <= bl else (False if al > bh else None))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b,
                         lambda al, ah, bl, bh: True if al > bh else (False if ah <= bl else None))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b,
                         lambda al, ah, bl, bh: True if al >= bh else (False if ah < bl else None))

    def __eq__(self, o):
        if isinstance(o, SymInt) and o.t.eq(self.t):
            return True
        r = self._cmp(o, lambda a, b: a == b,
                      lambda al, ah, bl, bh: False if (ah < bl or al > bh) else
                      (True if al == ah == bl == bh else None))
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return b_not(r)

    def bit_length(self):
        if self.lo < 0:
            return abs(self).bit_length()
        r = 0
        for i in range(self.hi.bit_length()):
            r = ite(self >= (1 << i), i + 1, r)
        return r

    def to_bytes(self, length=1, byteorder='big', signed=False):
        from . import models
        return models.int_to_bytes(self, length, byteorder, signed=signed)

    @property
    def real(self):
        return self

    def is_integer(self):
        return True

    def conjugate(self):
        return self


class Quot:
    """the float a / b of two integers below 2**52: rounding it to an integer is exact"""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a = a
        self.b = b

    def __floor__(self):
        return self.a // self.b

    def __ceil__(self):
        return -(-self.a // self.b)

    def __trunc__(self):
        q = self.a // self.b
        return ite(b_and(q < 0, q * self.b != self.a), q + 1, q)
    __int__ = __trunc__

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported('float')
        q = self.a // self.b
        r2 = (self.a - q * self.b) * 2
        up = b_or(r2 > self.b, b_and(r2 == self.b, q % 2 == 1)) if _positive(self.b) else None
        if up is None:
            raise Unsupported('float')
        return q + ite(up, 1, 0)

    def is_integer(self):
        return (self.a // self.b) * self.b == self.a

    def __floordiv__(self, o):
        raise Unsupported('float')
    __rfloordiv__ = __mod__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __floordiv__

    def _cmp(self, o, f):
        if not isinstance(o, (int, SymInt, SymBool)) or not _positive(self.b):
            raise Unsupported('float')
        return f(self.a, self.b * as_int(o))

    def __eq__(self, o):
        return self._cmp(o, lambda x, y: x == y)

    def __ne__(self, o):
        return self._cmp(o, lambda x, y: x != y)

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y)

    def __bool__(self):
        return bool(self.a != 0)

    def __hash__(self):
        raise Unsupported('float')


def _positive(b):
    return bool(b > 0)


def true_div(a, b):
    a, b = as_int(a), as_int(b)
    if not isinstance(a, (int, SymInt)) or not isinstance(b, (int, SymInt)):
        raise Unsupported('float')
    if bool(b == 0):
        raise ZeroDivisionError('division by zero')
    lim = 1 << 52
    if not bool(b_and(a < lim, a > -lim, b < lim, b > -lim)):
        raise Unsupported('float division of large integers')
    return Quot(a, b)


def mk(t, lo, hi):
    if lo == hi:
        return lo
    w = width_for(lo, hi)
    if w > MAXW:
        raise Unsupported('integer too wide')
    if t.size() > w:
        t = z3.Extract(w - 1, 0, t)
    elif t.size() < w:
        t = z3.SignExt(w - t.size(), t)
    return SymInt(t, lo, hi)


def as_int(x):
    if isinstance(x, SymBool):
        return x._i()
    return x


def i_term(x, w):
    if isinstance(x, SymInt):
        return x.at(w)
    return z3.BitVecVal(int(x), w)


def bounds(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    return int(x), int(x)


def _divmod(a, b):
    """floor division; b is known non-zero"""
    al, ah = bounds(a)
    bl, bh = bounds(b)
    m = max(abs(al), abs(ah))
    w = max(width_for(al, ah), width_for(bl, bh)) + 1
    at, bt = i_term(a, w), i_term(b, w)
    bm = max(abs(bl), abs(bh))
    if al >= 0 and bl >= 0:
        q, r = z3.UDiv(at, bt), z3.URem(at, bt)
        blo = max(bl, 1)
        return mk(q, al // bh if bh else 0, ah // blo), mk(r, 0, min(bm - 1, ah))
    q, r = at / bt, z3.SRem(at, bt)
    z = z3.BitVecVal(0, w)
    adj = z3.And(r != z, (r < z) != (bt < z))
    one = z3.BitVecVal(1, w)
    q2 = z3.If(adj, q - one, q)
    r2 = z3.If(adj, r + bt, r)
    rlo = 0 if bl > 0 else -(bm - 1)
    rhi = bm - 1 if bh > 0 else 0
    return mk(q2, -m - 1, m + 1), mk(r2, rlo, rhi)


def ite(c, a, b):
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, SymBool) or isinstance(b, SymBool) or (isinstance(a, bool) and isinstance(b, bool)):
        return SymBool(z3.If(c.t, b_term(a), b_term(b)))
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    al, ah = bounds(a)
    bl, bh = bounds(b)
    lo, hi = min(al, bl), max(ah, bh)
    w = width_for(lo, hi)
    if isinstance(a, SymInt):
        w = max(w, a.t.size())
    if isinstance(b, SymInt):
        w = max(w, b.t.size())
    return mk(z3.If(c.t, i_term(a, w), i_term(b, w)), lo, hi)


def table_int(root, table):
    """int given pointwise over the root's current domain"""
    dom = root_dom(root)
    vals = [table[v] for v in dom]
    lo, hi = min(vals), max(vals)
    if lo == hi:
        return lo
    # maximal runs of consecutive dom elements with value = root + c
    w = max(width_for(lo, hi), root.width + 1)
    segs = []
    for v in dom:
        c = table[v] - v
        if segs and segs[-1][2] == c:
            segs[-1][1] = v
        elif segs and segs[-1][0] == segs[-1][1] and False:
            pass
        else:
            segs.append([v, v, c])
    # alternatively merge equal-valued runs
    base = z3.ZeroExt(w - root.width, root.var)
    if len(segs) > 8:
        # group by value
        groups = {}
        for v in dom:
            groups.setdefault(table[v], set()).add(v)
        if len(groups) < len(segs):
            items = sorted(groups.items())
            t = z3.BitVecVal(items[-1][0], w)
            for val, s in items[:-1]:
                t = z3.If(root_in(root, frozenset(s)), z3.BitVecVal(val, w), t)
            return mk(t, lo, hi)
    t = None
    for a, b, c in reversed(segs):
        if a == b:
            val = z3.BitVecVal(a + c, w)
        else:
            val = base + z3.BitVecVal(c, w) if c else base
        if t is None:
            t = val
        else:
            cond = z3.ULE(root.var, b)
            t = z3.If(cond, val, t)
    return mk(t, lo, hi)


# ---------------------------------------------------------------- strings

class Cell:
    """one symbolic character: a finite map from a root to characters"""
    __slots__ = ('root', 'tab', '_hash')

    def __init__(self, root, tab):
        self.root = root
        self.tab = tab

    def dom(self):
        return root_dom(self.root)

    def eq(self, ch):
        tab = self.tab
        return root_cond(self.root, frozenset(v for v in self.dom() if tab[v] == ch))

    def pred(self, f):
        tab = self.tab
        return root_cond(self.root, frozenset(v for v in self.dom() if f(tab[v])))

    def chars(self):
        tab = self.tab
        return {tab[v] for v in self.dom()}

    def map(self, f):
        tab = self.tab
        nt = {v: f(tab[v]) for v in self.dom()}
        vals = set(nt.values())
        if len(vals) == 1:
            return vals.pop()
        if nt == tab:
            return self
        return Cell(self.root, nt)

    def norm(self):
        vals = self.chars()
        if len(vals) == 1:
            return next(iter(vals))
        return self

    def ordv(self):
        tab = self.tab
        return table_int(self.root, {v: ord(tab[v]) for v in self.dom()})


def cell_eq(a, b):
    if isinstance(a, str):
        if isinstance(b, str):
            return a == b
        return b.eq(a)
    if isinstance(b, str):
        return a.eq(b)
    if a.root is b.root:
        ta, tb = a.tab, b.tab
        return root_cond(a.root, frozenset(v for v in a.dom() if ta[v] == tb[v]))
    if not (a.chars() & b.chars()):
        return False
    return a.ordv() == b.ordv()


# ----------------------------------------------------------------- engine

class Engine:
    def __init__(self, max_paths=200000, time_limit=None, query_timeout_ms=60000, conc_cap=300):
        self.max_paths = max_paths
        self.deadline = None if time_limit is None else time.monotonic() + time_limit
        self.conc_cap = conc_cap
        self.solver = z3.SolverFor('QF_BV')
        self.solver.set('timeout', query_timeout_ms)
        self.stats = dict(queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0, branches=0,
                          paths=0, infeasible=0, aborted=0, forced=0, choices=0)
        self.abort_reasons = {}
        self.roots = {}
        self.frames = []      # decisions already asserted in the solver, one push each
        self.fresh = 0

    # -- solver
    def _check(self, *extra):
        t0 = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.perf_counter() - t0
        self.stats['queries'] += 1
        self.stats[str(r)] = self.stats.get(str(r), 0) + 1
        return r

    def check_deadline(self):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise PathAbort('time limit')

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathInfeasible()
            else:
                raise PathAbort('solver unknown')
        return self.model

    def eval_bool(self, t):
        m = self.get_model()
        return z3.is_true(m.eval(t, model_completion=True))

    def eval_int(self, x, model=None):
        if isinstance(x, SymInt):
            m = model or self.get_model()
            return m.eval(x.t, model_completion=True).as_signed_long()
        if isinstance(x, SymBool):
            m = model or self.get_model()
            return z3.is_true(m.eval(x.t, model_completion=True))
        return x

    # -- path control
    def _push(self, t):
        self.solver.push()
        self.solver.add(t)

    def _refine(self, c, val):
        meta = c.meta
        if meta is None:
            return
        if val:
            for r, s in meta:
                d = self.dom.get(r.name, r.domain)
                nd = tuple(v for v in d if v in s)
                self.dom[r.name] = nd
        elif len(meta) == 1:
            r, s = meta[0]
            d = self.dom.get(r.name, r.domain)
            self.dom[r.name] = tuple(v for v in d if v not in s)

    def branch(self, c):
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            d = self.prefix[i]
            val = d[0]
            if not d[1]:          # not forced: has an assertion
                self._replay(i, c.t if val else z3.Not(c.t))
            else:
                self._replay(i, None)
            self._refine(c, val)
            self.dec.append(d)
            return val
        self.stats['branches'] += 1
        if (self.stats['branches'] & 63) == 0:
            self.check_deadline()
        mv = self.eval_bool(c.t)
        other = z3.Not(c.t) if mv else c.t
        r = self._check(other)
        if r == z3.unsat:
            d = (mv, True)
            self.stats['forced'] += 1
            self._frame(d, None)
        elif r == z3.sat:
            alt_model = self.solver.model()
            alt = self.dec + [(not mv, False)]
            self.work.append((alt, alt_model))
            d = (mv, False)
            self._frame(d, c.t if mv else z3.Not(c.t))
        else:
            raise PathAbort('solver unknown')
        self.dec.append(d)
        self._refine(c, mv)
        return mv

    def _frame(self, d, t):
        """record decision d at the end of the frame stack"""
        if t is not None:
            self._push(t)
            self.frames.append((d, True))
        else:
            self.frames.append((d, False))

    def _replay(self, i, t):
        """decision i of the prefix: assert unless retained from the previous run"""
        if i < self.keep:
            return
        self._frame(self.prefix[i], t)

    def assume(self, c):
        if not isinstance(c, SymBool):
            if not c:
                raise PathInfeasible()
            return
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            d = self.prefix[i]
            self._replay(i, c.t)
        else:
            d = ('assume', False)
            if not self.eval_bool(c.t):
                r = self._check(c.t)
                if r == z3.unsat:
                    raise PathInfeasible()
                if r != z3.sat:
                    raise PathAbort('solver unknown')
                self.model = self.solver.model()
            self._frame(d, c.t)
        self.dec.append(d)
        self._refine(c, True)

    def concretize(self, x):
        """fork over the feasible values of x (an int); complete unless the cap is hit"""
        x = as_int(x)
        if not isinstance(x, SymInt):
            return x
        n = 0
        while True:
            i = self.pos
            if i < len(self.prefix):
                v, taken, forced = self.prefix[i][2:5]
                val = taken
                w = x.t.size()
                t = x.t == z3.BitVecVal(v, w)
                self.pos += 1
                self._replay(i, None if forced else (t if taken else z3.Not(t)))
                self.dec.append(self.prefix[i])
                if taken:
                    return v
                n += 1
                continue
            self.stats['choices'] += 1
            self.check_deadline()
            v = self.eval_int(x)
            w = x.t.size()
            t = x.t == z3.BitVecVal(v, w)
            self.pos += 1
            r = self._check(z3.Not(t))
            if r == z3.unsat:
                d = (True, True, v, True, True)
                self._frame(d, None)
                self.dec.append(d)
                return v
            if r != z3.sat:
                raise PathAbort('solver unknown')
            if n >= self.conc_cap:
                self.note('concretisation cap')
            else:
                self.work.append((self.dec + [(False, False, v, False, False)], self.solver.model()))
            d = (True, False, v, True, False)
            self._frame(d, t)
            self.dec.append(d)
            return v

    def note(self, why):
        self.abort_reasons[why] = self.abort_reasons.get(why, 0) + 1
        self.partial = True

    def new_root(self, name, domain, values=None):
        r = self.roots.get(name)
        if r is None or r.domain != tuple(sorted(domain)):
            r = Root(name, domain, values)
            self.roots[name] = r
        if name not in self.dom:
            self.dom[name] = r.domain
            if len(r.domain) != (1 << r.width):
                self.assume(SymBool(z3.simplify(self._dom_term(r))))
        return r

    def _dom_term(self, r):
        # real membership: gaps are not don't-cares here
        parts = []
        cur = None
        for v in r.domain:
            if cur is not None and v == cur[1] + 1:
                cur[1] = v
            else:
                cur = [v, v]
                parts.append(cur)
        return z3.Or([z3.And(z3.UGE(r.var, a), z3.ULE(r.var, b)) for a, b in parts])

    def new_int(self, name, lo, hi):
        if lo == hi:
            return lo
        w = width_for(lo, hi)
        v = z3.BitVec(name, w)
        x = SymInt(v, lo, hi)
        conds = []
        if lo != -(1 << (w - 1)):
            conds.append(v >= z3.BitVecVal(lo, w))
        if hi != (1 << (w - 1)) - 1:
            conds.append(v <= z3.BitVecVal(hi, w))
        if conds:
            self.assume(SymBool(z3.And(conds) if len(conds) > 1 else conds[0]))
        return x

    def prove(self, c):
        """does c hold on every value of this path?  None if it does, else a model"""
        if not isinstance(c, SymBool):
            return None if c else self.get_model()
        if not self.eval_bool(c.t):
            return self.model
        r = self._check(z3.Not(c.t))
        if r == z3.unsat:
            return None
        if r == z3.sat:
            return self.solver.model()
        raise PathAbort('solver unknown in a requirement')

    # -- exploration
    def explore(self, run, on_path):
        """run() executes the harness once; on_path(status) is called at the end of each path"""
        global ENGINE
        ENGINE = self
        self.work = [([], None)]
        self.dec = []
        self.frames = []
        self.partial = False
        try:
            while self.work:
                if self.stats['paths'] + self.stats['aborted'] >= self.max_paths:
                    self.note('path cap')
                    break
                if self.deadline is not None and time.monotonic() > self.deadline:
                    self.note('time limit')
                    break
                prefix, model = self.work.pop()
                # frames shared with the previous run
                k = 0
                n = min(len(prefix), len(self.frames))
                while k < n and self.frames[k][0] == prefix[k]:
                    k += 1
                while len(self.frames) > k:
                    d, pushed = self.frames.pop()
                    if pushed:
                        self.solver.pop()
                self.keep = k
                self.prefix = prefix
                self.pos = 0
                self.dec = []
                self.dom = {}
                self.model = model
                try:
                    run()
                    if self.pos < len(self.prefix):
                        raise PathAbort('non-deterministic replay')
                    self.stats['paths'] += 1
                    on_path('ok')
                except PathInfeasible:
                    self.stats['infeasible'] += 1
                except PathAbort as e:
                    self.stats['aborted'] += 1
                    self.note('%s: %s' % (type(e).__name__, e))
                    try:
                        on_path('abort')
                    except EngineControl:
                        pass
        finally:
            ENGINE = None
            while self.frames:
                d, pushed = self.frames.pop()
                if pushed:
                    self.solver.pop()
