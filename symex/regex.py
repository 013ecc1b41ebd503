"""re on symbolic strings: a backtracking matcher over the parsed pattern (forks on each undecided character test)."""
import re as _re
from re import _parser, _constants as C
from .core import b_or, b_not
from .values import SymStr, Opaque, cells_of, mkstr, full_concrete

_CAT = {C.CATEGORY_DIGIT: str.isdecimal, C.CATEGORY_SPACE: str.isspace,
        C.CATEGORY_WORD: lambda c: c.isalnum() or c == '_'}
_NCAT = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE,
         C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}


def _chartest(items, flags):
    """predicate of a concrete character"""
    neg = False
    tests = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            tests.append(lambda c, v=av: ord(c) == v)
        elif op is C.RANGE:
            tests.append(lambda c, v=av: v[0] <= ord(c) <= v[1])
        elif op is C.CATEGORY:
            if av in _CAT:
                f, n = _CAT[av], False
            else:
                f, n = _CAT[_NCAT[av]], True
            if flags & _re.ASCII:
                f = (lambda g: lambda c: c.isascii() and g(c))(f)
            tests.append((lambda g, n: lambda c: bool(g(c)) != n)(f, n))
        else:
            raise NotImplementedError('re: %s' % (op,))

    def one(c):
        return any(t(c) for t in tests)

    def pred(c):
        r = one(c)
        if not r and flags & _re.IGNORECASE:
            r = any(len(x) == 1 and one(x) for x in (c.lower(), c.upper()))
        return r != neg
    return pred


class Matcher:
    def __init__(self, s, flags, end):
        self.c = cells_of(s)
        self.flags = flags
        self.n = end

    def test(self, i, pred):
        x = self.c[i]
        return pred(x) if isinstance(x, str) else bool(x.pred(pred))

    def run(self, ops, i, g, k):
        """tries ops at i with the group spans g; k(i, g) continues; returns its result or None"""
        if not ops:
            return k(i, g)
        (op, av), rest = ops[0], ops[1:]

        def then(j, h):
            return self.run(rest, j, h, k)
        if op is C.LITERAL or op is C.NOT_LITERAL or op is C.IN or op is C.ANY:
            if i >= self.n:
                return None
            if op is C.ANY:
                ok = True if self.flags & _re.DOTALL else self.test(i, lambda c: c != '\n')
            else:
                items = av if op is C.IN else [(C.LITERAL, av)]
                if op is C.NOT_LITERAL:
                    items = [(C.NEGATE, None)] + items
                ok = self.test(i, _chartest(items, self.flags))
            return then(i + 1, g) if ok else None
        if op is C.SUBPATTERN:
            group, add, sub_, p = av
            old = self.flags
            if add or sub_:
                raise NotImplementedError('re: inline flags')

            def close(j, h):
                if group is not None:
                    h = dict(h)
                    h[group] = (i, j)
                return then(j, h)
            return self.run(list(p), i, g, close)
        if op is C.BRANCH:
            for p in av[1]:
                r = self.run(list(p), i, g, then)
                if r is not None:
                    return r
            return None
        if op is C.MAX_REPEAT or op is C.MIN_REPEAT:
            lo, hi, p = av
            p = list(p)

            def more(n, j, h):
                def again(jj, hh):
                    if jj == j and n >= lo:
                        return None
                    return more(n + 1, jj, hh)
                if op is C.MAX_REPEAT:
                    if n < hi:
                        r = self.run(p, j, h, again)
                        if r is not None:
                            return r
                    return then(j, h) if n >= lo else None
                if n >= lo:
                    r = then(j, h)
                    if r is not None:
                        return r
                return self.run(p, j, h, again) if n < hi else None
            return more(0, i, g)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0 or (av is C.AT_BEGINNING and self.flags & _re.MULTILINE
                                and self.test(i - 1, lambda c: c == '\n'))
            elif av is C.AT_END_STRING:
                ok = i == self.n
            elif av is C.AT_END:
                ok = i == self.n or ((i == self.n - 1 or self.flags & _re.MULTILINE)
                                     and self.test(i, lambda c: c == '\n'))
            else:
                w = _CAT[C.CATEGORY_WORD]
                a = i > 0 and self.test(i - 1, w)
                b = i < self.n and self.test(i, w)
                ok = (bool(a) != bool(b)) == (av is C.AT_BOUNDARY)
            return then(i, g) if ok else None
        if op is C.ASSERT or op is C.ASSERT_NOT:
            d, p = av
            if d < 0:
                w = _parser.SubPattern.getwidth(p)
                if w[0] != w[1]:
                    raise NotImplementedError('re: look-behind')
                r = None if i < w[0] else self.run(list(p), i - w[0], g, lambda j, h: (j, h))
            else:
                r = self.run(list(p), i, g, lambda j, h: (j, h))
            if (r is None) != (op is C.ASSERT_NOT):
                return None
            return then(i, r[1] if r else g)
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            if i + b - a > self.n or not bool(mkstr(self.c[a:b]) == mkstr(self.c[i:i + b - a])):
                return None
            return then(i + b - a, g)
        raise NotImplementedError('re: %s' % (op,))


class Match:
    def __init__(self, pattern, s, spans):
        self.re, self.string, self._spans = pattern, s, spans

    def _n(self, g):
        return self.re.groupindex[g] if isinstance(g, str) else g

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            n = self._n(g)
            if n > self.re.groups:
                raise IndexError('no such group')
            sp = self._spans.get(n)
            out.append(None if sp is None else self.string[sp[0]:sp[1]])
        return out[0] if len(out) == 1 else tuple(out)
    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if n not in self._spans else self.group(n) for n in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: (default if n not in self._spans else self.group(n)) for k, n in self.re.groupindex.items()}

    def span(self, g=0):
        return self._spans.get(self._n(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def lastindex(self):
        s = [n for n in self._spans if n]
        return s[-1] if s else None

    @property
    def lastgroup(self):
        n = self.lastindex
        return next((k for k, v in self.re.groupindex.items() if v == n), None)


class Pattern:
    def __init__(self, real):
        self.real = real
        self.pattern, self.flags = real.pattern, real.flags
        self.groups, self.groupindex = real.groups, dict(real.groupindex)
        self._ops = None

    def _at(self, s, i, full, end=None):
        if self._ops is None:
            self._ops = list(_parser.parse(self.pattern, self.flags & ~_re.UNICODE))
        n = len(s) if end is None else end
        r = Matcher(s, self.flags, n).run(self._ops, i, {}, lambda j, g: (j, g) if not full or j == n else None)
        if r is None:
            return None
        spans = {0: (i, r[0])}
        spans.update(r[1])
        return Match(self, s, spans)

    def _sym(self, s):
        return isinstance(s, SymStr)

    def match(self, s, pos=0, *a):
        return self._at(s, pos, False) if self._sym(s) and not a else self.real.match(full_concrete(s), pos, *a)

    def fullmatch(self, s, pos=0, *a):
        return self._at(s, pos, True) if self._sym(s) and not a else self.real.fullmatch(full_concrete(s), pos, *a)

    def search(self, s, pos=0, *a):
        if not self._sym(s) or a:
            return self.real.search(full_concrete(s), pos, *a)
        for i in range(pos, len(s) + 1):
            m = self._at(s, i, False)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0, *a):
        if not self._sym(s) or a:
            yield from self.real.finditer(full_concrete(s), pos, *a)
            return
        i = pos
        last = -1
        while i <= len(s):
            m = self._at(s, i, False)
            if m is None or (m.end() == m.start() == last):
                i += 1
                continue
            yield m
            last = m.end()
            if m.end() == m.start():
                i += 1
            else:
                i = m.end()

    def findall(self, s, *a):
        if not self._sym(s):
            return self.real.findall(s, *a)
        out = []
        for m in self.finditer(s, *a):
            out.append(m.group() if not self.groups else m.group(1) if self.groups == 1 else m.groups(''))
        return [('' if x is None else x) for x in out]

    def split(self, s, maxsplit=0):
        if not self._sym(s):
            return self.real.split(s, maxsplit)
        out, at = [], 0
        for m in self.finditer(s):
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(s[at:m.start()])
            out.extend(m.groups())
            at = m.end()
        return out + [s[at:]]

    def sub(self, repl, s, count=0):
        if not self._sym(s) and not isinstance(repl, SymStr) and not callable(repl):
            return self.real.sub(repl, s, count)
        if not callable(repl):
            if '\\' in repl:
                return self.real.sub(full_concrete(repl), full_concrete(s), count)
            text = repl
            repl = lambda m: text                      # noqa: E731
        if not self._sym(s):
            its = self.real.finditer(s)
        else:
            its = self.finditer(s)
        out, at = [], 0
        for k, m in enumerate(its):
            if count and k >= count:
                break
            out.extend(cells_of(s[at:m.start()]))
            out.extend(cells_of(repl(m)))
            at = m.end()
        out.extend(cells_of(s[at:]))
        return mkstr(tuple(out))


class ReModel:
    """stands for the module re"""

    def compile(self, p, flags=0):
        if isinstance(p, Pattern):
            return p
        if not isinstance(p, (str, SymStr)):
            return _re.compile(p, flags)
        return Pattern(_re.compile(full_concrete(p), flags))

    def _f(name):
        def f(self, p, *a, flags=0, **k):
            n = {'sub': 2}.get(name, 1)
            if len(a) > n and name in ('match', 'fullmatch', 'search', 'findall', 'finditer'):
                flags, a = a[n], a[:n]
            return getattr(self.compile(p, flags), name)(*a, **k)
        return f
    match, fullmatch, search = _f('match'), _f('fullmatch'), _f('search')
    findall, finditer, split, sub = _f('findall'), _f('finditer'), _f('split'), _f('sub')

    def escape(self, p):
        return _re.escape(full_concrete(p))

    def __getattr__(self, name):
        return getattr(_re, name)
