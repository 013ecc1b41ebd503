"""The harness interface in symbolic form."""
import z3
from . import core, models
from .core import SymInt, SymBool, Cell, b_and, b_or, b_not, ite, PathInfeasible, Root
from .values import SymStr, SymBytes, SymDict, mkstr, bytes_equal, bytes_equal_aligned, full_concrete, has_sym, tobytes, Opaque
from .ctx import RequirementFailed, AssumptionFailed, make_image_module


class PathViolation(core.EngineControl):
    pass


class SymCtx:
    symbolic = True

    def __init__(self, eng, known=()):
        self.e = eng
        self.known = set(known)
        self.inputs = []           # (name, kind, value)
        self.obs = []
        self.violation = None
        self.known_hits = []
        self.reqs = 0

    # -- inputs
    def int(self, name, lo, hi):
        v = self.e.new_int(name, lo, hi)
        self.inputs.append((name, 'int', v))
        return v

    def index(self, name, n):
        v = self.e.concretize(self.e.new_int(name, 0, n - 1))
        self.inputs.append((name, 'int', v))
        return v

    def bool(self, name):
        v = self.e.new_int(name, 0, 1)
        self.inputs.append((name, 'int', v))
        return v != 0

    def choice(self, name, options):
        options = list(options)
        return options[self.index(name, len(options))]

    def pick(self, name, options):
        """one of several strings, as one symbolic string (paths split only on the length)"""
        options = list(options)
        if len(options) == 1:
            self.inputs.append((name, 'int', 0))
            return options[0]
        r = self.e.new_root(name, range(len(options)))
        self.inputs.append((name, 'root', r))
        lens = sorted({len(o) for o in options})
        for ln in lens:
            grp = frozenset(i for i, o in enumerate(options) if len(o) == ln)
            c = core.root_cond(r, grp)
            if ln == lens[-1] or bool(c):
                break
        dom = core.root_dom(r)
        cells = [Cell(r, {i: options[i][k] for i in dom}) for k in range(ln)]
        return mkstr(cells)

    def pickv(self, name, options):
        """one of several (string, integer) pairs, merged -> (string, integer)"""
        options = list(options)
        t = self.pick(name, [o[0] for o in options])
        if len(options) == 1:
            return t, options[0][1]
        return t, core.table_int(self.inputs[-1][2], {i: o[1] for i, o in enumerate(options)})

    def chars(self, name, n, alphabet):
        cells = []
        for i in range(n):
            dom = sorted({ord(c) for c in alphabet})
            r = self.e.new_root('%s[%d]' % (name, i), dom)
            cells.append(Cell(r, {v: chr(v) for v in dom}))
        self.inputs.append((name, 'str', cells))
        return mkstr(cells)

    def digits(self, name, n, alphabet):
        """n digits -> (text, their values)"""
        cells, vals = [], []
        for i in range(n):
            r = self.e.new_root('%s[%d]' % (name, i), range(len(alphabet)))
            cells.append(Cell(r, dict(enumerate(alphabet))))
            vals.append(core.table_int(r, {v: v for v in r.domain}))
        self.inputs.append((name, 'str', cells))
        return mkstr(cells), vals

    def bytes(self, name, n):
        l = [self.e.new_int('%s[%d]' % (name, i), 0, 255) for i in range(n)]
        self.inputs.append((name, 'bytes', l))
        return SymBytes([l] if l else [], False)

    # -- logic
    def assume(self, c):
        self.e.assume(c)

    def require(self, c, msg, known=None, detail=None):
        self.reqs += 1
        e = self.e
        if known is not None and known[0] in self.known:
            kc = known[1]
            if not (isinstance(kc, bool) and not kc):
                if e.pos >= len(e.prefix):
                    hit = b_and(b_not(c), kc)
                    if isinstance(hit, SymBool):
                        if e._check(hit.t) == z3.sat:
                            self.known_hits.append((known[0], e.solver.model()))
                    elif hit:
                        self.known_hits.append((known[0], e.get_model()))
                c2 = b_or(c, kc)
            else:
                c2 = c
        else:
            c2 = c
        if e.pos >= len(e.prefix):
            m = e.prove(c2)
            if m is not None:
                self.violation = (msg, m)
                raise PathViolation()
        if isinstance(c, SymBool):
            if known is not None and c2 is not c:
                e.assume(c)
        elif not c:
            raise PathInfeasible()

    def fail(self, msg, known=None, detail=None):
        self.require(False, msg, known, detail)

    def bytes_eq(self, a, b):
        return bytes_equal(a, b)

    def require_bytes(self, got, want, msg, known=None):
        self.observe('bytes', got)
        e = self.e
        if e.pos >= len(e.prefix) and any(len(x.segs) > 1 for x in (got, want) if isinstance(x, SymBytes)):
            cs = bytes_equal_aligned(got, want)
            if cs is not None and all(e.prove(c) is None for c in cs):
                self.reqs += 1
                return
        self.require(bytes_equal(got, want), msg, known)

    def observe(self, name, value):
        if isinstance(value, SymBytes):
            value = SymBytes.of(value)
        elif isinstance(value, bytearray):
            value = bytes(value)
        self.obs.append((name, value))

    def attempt(self, f, *a, **k):
        try:
            r = ('ok', f(*a, **k))
        except (RequirementFailed, AssumptionFailed):
            raise
        except Exception as ex:
            self.last_exc = ex
            r = ('err', type(ex).__name__)
        self.observe('outcome', r[0] if r[0] == 'ok' else r[1])
        return r

    def message(self):
        a = self.last_exc.args
        return models.m_str(a[0]) if len(a) == 1 else models.m_str(a) if a else ''

    def printed(self, f):
        old = models.PRINTED
        models.PRINTED = out = []
        try:
            r = f()
        finally:
            models.PRINTED = old
        return r, out

    def ite(self, c, a, b):
        return ite(c, a, b)

    def and_(self, *c):
        return b_and(*c)

    def or_(self, *c):
        return b_or(*c)

    def not_(self, c):
        return b_not(c)

    def file(self, name, content):
        models.VFILES.files[name] = content

    def json_file(self, name, obj):
        models.VFILES.files[name] = '{}'
        models.VJSON[name] = obj

    def read_file(self, name):
        d = models.VFILES.files[name]
        return tobytes(d) if not isinstance(d, (str, SymStr)) else tobytes(d.encode())

    def image(self, name, width, height, pixels, mode='P', palette=None):
        PIL_IMAGE.FAKE[name] = (width, height, pixels, mode, palette)

    def run_main(self, f, argv):
        import sys
        old = sys.argv
        sys.argv = list(argv)
        try:
            return f()
        finally:
            sys.argv = old

    def concrete(self, x):
        return full_concrete(x)

    def fresh(self):
        self.fresh_fn()


import types
PIL = types.ModuleType('PIL')
PIL_IMAGE = types.ModuleType('PIL.Image')
make_image_module(PIL_IMAGE)
PIL.Image = PIL_IMAGE


def model_inputs(eng, inputs, m):
    def ev(t):
        return m.eval(t, model_completion=True)
    out = {}
    for name, kind, v in inputs:
        if kind == 'int':
            out[name] = eng.eval_int(v, m) if isinstance(v, SymInt) else v
        elif kind == 'root':
            out[name] = root_val(v, m)
        elif kind == 'str':
            s = ''
            for c in v:
                rv = root_val(c.root, m)
                s += c.tab[rv]
            out[name] = s
        elif kind == 'bytes':
            out[name] = [eng.eval_int(x, m) if isinstance(x, SymInt) else x for x in v]
    return out


def other_model(eng, inputs, seed):
    """a model of the path condition with as many inputs as possible at randomly chosen (often extreme) values"""
    import random
    import time
    rnd = random.Random(seed)
    end = time.monotonic() + 2
    eng.solver.push()
    try:
        m = eng.get_model()
        goals = []
        for name, kind, v in inputs:
            if kind == 'int' and isinstance(v, SymInt):
                goals.append((v.t, rnd.choice([v.lo, v.hi, rnd.randint(v.lo, v.hi)])))
            elif kind == 'root':
                goals.append((v.var, rnd.choice(v.domain)))
            elif kind == 'str':
                goals += [(c.root.var, rnd.choice(c.root.domain)) for c in v]
            elif kind == 'bytes':
                goals += [(x.t, rnd.choice([x.lo, x.hi, rnd.randint(x.lo, x.hi)])) for x in v if isinstance(x, SymInt)]
        for t, val in goals:
            if time.monotonic() > end:
                break
            c = t == z3.BitVecVal(val, t.size())
            if eng._check(c) == z3.sat:
                m = eng.solver.model()
                eng.solver.add(c)
        return m
    finally:
        eng.solver.pop()


def root_val(r, m):
    x = m.eval(r.var, model_completion=True).as_long()
    if x not in r.domain:
        x = r.domain[0]
    return x


def model_value(eng, v, m):
    """concrete value of an observed symbolic value under model m"""
    if isinstance(v, (SymInt, SymBool)):
        return eng.eval_int(v, m)
    if isinstance(v, SymStr):
        out = ''
        for c in v.raw():
            if isinstance(c, Opaque):
                out += format(model_value(eng, c.value, m), c.spec)
            else:
                out += c if isinstance(c, str) else c.tab[root_val(c.root, m)]
        return out
    if isinstance(v, SymBytes):
        out = bytearray()
        for s in v.segs:
            if isinstance(s, list):
                out += bytes(eng.eval_int(x, m) & 0xff if isinstance(x, SymInt) else x for x in s)
            else:
                out += bytes([eng.eval_int(s.v, m) if isinstance(s.v, SymInt) else s.v]) * max(0, eng.eval_int(s.n, m))
        return bytes(out)
    if isinstance(v, (list, tuple)):
        return type(v)(model_value(eng, x, m) for x in v)
    if isinstance(v, dict):
        return {model_value(eng, k, m): model_value(eng, x, m) for k, x in v.items()}
    return v


def _img_tobytes(self):
    return models.m_bytes(list(self.pixels))


PIL_IMAGE.Image.tobytes = _img_tobytes
