"""Sets whose elements may be symbolic: a list of (element, condition under which it is present)."""
from .core import b_and, b_or, b_not
from .values import sym_eq, has_sym, full_concrete


def _eq(a, b):
    c = sym_eq(a, b)
    return False if c is NotImplemented else c


def items_of(x):
    if isinstance(x, SymSet):
        return list(x.items)
    return [(e, True) for e in x]


def member(x, items):
    out = []
    for e, g in items:
        c = b_and(g, _eq(x, e))
        if c is True:
            return True
        if c is not False:
            out.append(c)
    return b_or(*out)


class SymSet:
    __slots__ = ('items', 'frozen')

    def __init__(self, items, frozen=False):
        self.items = items
        self.frozen = frozen

    @staticmethod
    def of(it, frozen=False):
        return SymSet([(e, True) for e in it], frozen)

    def contains(self, x):
        return member(x, self.items)

    def __contains__(self, x):
        return bool(self.contains(x))

    def elems(self):
        """the elements present, each once (forks)"""
        out = []
        for e, g in self.items:
            if bool(g) and not any(bool(_eq(e, o)) for o in out):
                out.append(e)
        self.items = [(e, True) for e in out]
        return out

    def __iter__(self):
        return iter(self.elems())

    def __len__(self):
        return len(self.elems())

    def __bool__(self):
        return bool(b_or(*[g for _, g in self.items]))

    def concrete(self):
        s = {full_concrete(e) for e in self.elems()}
        return frozenset(s) if self.frozen else s

    def __hash__(self):
        return hash(self.concrete())

    def __repr__(self):
        return repr(self.concrete())

    def _new(self, items):
        return SymSet(items, self.frozen)

    def difference(self, *os):
        its = self.items
        for o in os:
            other = items_of(o)
            its = [(e, c) for e, c in ((e, b_and(g, b_not(member(e, other)))) for e, g in its) if c is not False]
        return self._new(its)

    def intersection(self, *os):
        its = self.items
        for o in os:
            other = items_of(o)
            its = [(e, c) for e, c in ((e, b_and(g, member(e, other))) for e, g in its) if c is not False]
        return self._new(its)

    def union(self, *os):
        its = list(self.items)
        for o in os:
            its += items_of(o)
        return self._new(its)

    def symmetric_difference(self, o):
        o = SymSet(items_of(o))
        return self.difference(o).union(o.difference(self))

    def issubset(self, o):
        other = items_of(o)
        return b_and(*[b_or(b_not(g), member(e, other)) for e, g in self.items])

    def issuperset(self, o):
        return b_and(*[b_or(b_not(g), member(e, self.items)) for e, g in items_of(o)])

    def isdisjoint(self, o):
        other = items_of(o)
        return b_not(b_or(*[b_and(g, member(e, other)) for e, g in self.items]))

    def copy(self):
        return self._new(list(self.items))

    def _set(self, o):
        return isinstance(o, (SymSet, set, frozenset, type({}.keys())))

    def __eq__(self, o):
        if not self._set(o):
            return NotImplemented
        return b_and(self.issubset(o), self.issuperset(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __le__(self, o):
        return self.issubset(o) if self._set(o) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if self._set(o) else NotImplemented

    def __lt__(self, o):
        return b_and(self.issubset(o), b_not(self.issuperset(o))) if self._set(o) else NotImplemented

    def __gt__(self, o):
        return b_and(self.issuperset(o), b_not(self.issubset(o))) if self._set(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if self._set(o) else NotImplemented

    def __rsub__(self, o):
        return SymSet.of(o).difference(self) if self._set(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if self._set(o) else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        return self.union(o) if self._set(o) else NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._set(o) else NotImplemented
    __rxor__ = __xor__

    # -- mutation
    def add(self, x):
        self.items.append((x, True))

    def update(self, *os):
        self.items = self.union(*os).items

    def discard(self, x):
        self.items = [(e, c) for e, c in ((e, b_and(g, b_not(_eq(e, x)))) for e, g in self.items) if c is not False]

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def difference_update(self, *os):
        self.items = self.difference(*os).items

    def intersection_update(self, *os):
        self.items = self.intersection(*os).items

    def clear(self):
        self.items = []

    def pop(self):
        es = self.elems()
        if not es:
            raise KeyError('pop from an empty set')
        self.items = self.items[1:]
        return es[0]


def m_set(*a):
    return _make(a, False)


def m_frozenset(*a):
    return _make(a, True)


def _make(a, frozen):
    if not a:
        return frozenset() if frozen else set()
    x = a[0]
    if isinstance(x, SymSet):
        return SymSet(list(x.items), frozen)
    es = list(x)
    if has_sym(es):
        return SymSet.of(es, frozen)
    return frozenset(es) if frozen else set(es)


def s_set(*es):
    return _make((es,), False)


def set_method(s, name, *a):
    """method of a built-in set with symbolic arguments"""
    if name in ('add', 'update', 'discard', 'remove', 'difference_update', 'intersection_update'):
        return None
    return getattr(SymSet.of(s, isinstance(s, frozenset)), name)(*a)
