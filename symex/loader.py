"""Loads the current source of the code under test, instrumented so that it runs on symbolic values.

Every module is read from disk on each run; only operations that Python performs in C without
consulting the operands (membership, calls to builtins, subscripts, dict displays, f-strings) are
redirected.  Control flow, arithmetic and data flow are the code's own."""
import ast
import builtins
import os
import types
from . import models, sets, regex

TYPES = {}


_PURE_BIN = (ast.Add, ast.Sub, ast.Mult, ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift)


def _pure(e):
    """the expression has no effect and can be evaluated ahead of the test that guards it"""
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, ast.Attribute):
        return _pure(e.value)
    if isinstance(e, ast.UnaryOp):
        return _pure(e.operand)
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, _PURE_BIN) and _pure(e.left) and _pure(e.right)
    if isinstance(e, ast.Compare):
        return _pure(e.left) and all(_pure(c) for c in e.comparators)
    if isinstance(e, ast.BoolOp):
        return all(_pure(v) for v in e.values)
    if isinstance(e, ast.IfExp):
        return _pure(e.test) and _pure(e.body) and _pure(e.orelse)
    return False


def _walrus(e):
    return any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(e))


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.infunc = 0
        self.temps = []

    def _lam(self, e):
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                          body=e)

    def visit_Lambda(self, node):
        self.infunc += 1
        self.generic_visit(node)
        self.infunc -= 1
        return node

    def visit_BoolOp(self, node):
        pure = [_pure(v) for v in node.values]
        self.generic_visit(node)
        if not self.infunc or not any(pure[1:]):
            return node
        fn = '__symex_or__' if isinstance(node.op, ast.Or) else '__symex_and__'
        out = node.values[-1]
        rest = pure[-1]
        for v, p in zip(node.values[-2::-1], pure[-2::-1]):
            if rest:
                out = self._call(fn, [v, self._lam(out)])
            elif isinstance(out, ast.BoolOp):
                out = ast.BoolOp(op=node.op, values=[v] + out.values)
            else:
                out = ast.BoolOp(op=node.op, values=[v, out])
            rest = rest and p
        return out

    def _target(self, t):
        return isinstance(t, ast.Name) or (isinstance(t, ast.Attribute) and _pure(t)) or \
            (isinstance(t, ast.Subscript) and _pure(t.value) and _pure(t.slice))

    def _load(self, t):
        return self.visit(ast.parse(ast.unparse(t), mode='eval').body)

    def visit_If(self, node):
        """if c: x = e [else: x = f] on integers: one value instead of two paths"""
        b, o = node.body, node.orelse
        if not self.infunc or len(b) != 1 or len(o) > 1 or _walrus(node.test):
            self.generic_visit(node)
            return node
        s, t = b[0], (o[0] if o else None)
        kind = None
        if isinstance(s, ast.AugAssign) and t is None and isinstance(s.op, _PURE_BIN) and _pure(s.value):
            kind = s.target
            new = ast.BinOp(left=self._load(s.target), op=s.op, right=self.visit(ast.parse(ast.unparse(s.value), mode='eval').body))
            old = self._load(s.target)
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and _pure(s.value) and \
                (t is None or (isinstance(t, ast.Assign) and len(t.targets) == 1 and _pure(t.value) and
                               ast.dump(t.targets[0]) == ast.dump(s.targets[0]))):
            kind = s.targets[0]
            new = self._load(s.value)
            old = self._load(t.value if t is not None else kind)
        elif isinstance(s, ast.Return) and s.value is not None and _pure(s.value) and isinstance(t, ast.Return) and \
                t.value is not None and _pure(t.value):
            kind = False
            new, old = self._load(s.value), self._load(t.value)
        if kind is None or (kind is not False and not self._target(kind)):
            self.generic_visit(node)
            return node
        tmp = '__symex_c%d' % len(self.temps)
        self.temps.append(tmp)
        self.generic_visit(node)
        value = self._call('__symex_ife__', [self._name(tmp), self._lam(new), self._lam(old)])
        if kind is False:
            merged = ast.Return(value=value)
        else:
            merged = ast.Assign(targets=[kind], value=value)
        test = node.test
        node.test = self._name(tmp)
        guard = ast.If(test=self._call('__symex_merge__', [self._name(tmp), self._lam(new), self._lam(old)]),
                       body=[merged], orelse=[node])
        return [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=test), guard]

    def visit_IfExp(self, node):
        pure = _pure(node.body) and _pure(node.orelse)
        self.generic_visit(node)
        if not self.infunc or not pure:
            return node
        return self._call('__symex_ife__', [node.test, self._lam(node.body), self._lam(node.orelse)])

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _call(self, fn, args):
        return ast.Call(func=self._name(fn), args=args, keywords=[])

    def visit_FunctionDef(self, node):
        if len(node.body) > 1:
            i, r = node.body[-2:]
            if isinstance(i, ast.If) and not i.orelse and len(i.body) == 1 and isinstance(i.body[0], ast.Return) and \
                    isinstance(r, ast.Return):
                i.orelse = [r]
                node.body.pop()
        self.stack.append(node.name)
        qual = '.'.join(self.stack)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        self.infunc += 1
        body = [self.visit(s) for s in node.body]
        self.infunc -= 1
        flat = []
        for s in body:
            flat.extend(s if isinstance(s, list) else [s])
        hook = ast.Expr(self._call('__symex_enter__', [ast.Constant(self.mod + ':' + qual)]))
        at = 1 if flat and isinstance(flat[0], ast.Expr) and isinstance(flat[0].value, ast.Constant) else 0
        flat.insert(at, hook)
        node.body = flat
        self.stack.pop()
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        infunc, self.infunc = self.infunc, 0
        self.generic_visit(node)
        self.infunc = infunc
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call('__symex_set__', node.elts)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.Call(func=self._name('__symex_set__'), args=[ast.Starred(value=lc, ctx=ast.Load())], keywords=[])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) > 1 and any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            # a in b == c: each operand once, left to right
            tmp = [self._name('__symex_t%d' % i) for i in range(len(node.comparators))]
            parts = []
            left = node.left
            for i, (o, c) in enumerate(zip(node.ops, node.comparators)):
                right = ast.NamedExpr(target=ast.Name(id=tmp[i].id, ctx=ast.Store()), value=c)
                cmp = ast.Compare(left=left, ops=[o], comparators=[right])
                if isinstance(o, (ast.In, ast.NotIn)):
                    cmp = self._call('__symex_in__' if isinstance(o, ast.In) else '__symex_notin__', [left, right])
                parts.append(cmp)
                left = tmp[i]
            return ast.BoolOp(op=ast.And(), values=parts)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return self._call('__symex_in__' if isinstance(node.ops[0], ast.In) else '__symex_notin__',
                              [node.left, node.comparators[0]])
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and (f.id in ('super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec')
                                        or f.id.startswith('__symex_')):
            return node
        return ast.Call(func=self._name('__symex_call__'), args=[f] + node.args, keywords=node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                none = ast.Constant(None)
                sl = self._call('__symex_slice__', [sl.lower or none, sl.upper or none, sl.step or none])
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
                return node
            return self._call('__symex_getitem__', [node.value, sl])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            items.append(ast.Tuple(elts=[self._name('__symex_spread__') if k is None else k, v], ctx=ast.Load()))
        return self._call('__symex_dict__', items)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.Call(func=self._name('__symex_dict__'), args=[ast.Starred(value=lc, ctx=ast.Load())], keywords=[])

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[val, ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return self._call('__symex_fstr__', parts)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('__symex_mod__', [node.left, node.right])
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException'):
            node.type = self._name('Exception')
        return node


class Loader:
    def __init__(self, roots, stubs=None):
        """roots: top-level package name -> directory that contains it"""
        self.roots = roots
        self.mods = {}
        self.entered = set()
        self.stubs = dict(stubs or {})
        self.stubs.setdefault('struct', models.StructModel())
        self.stubs.setdefault('csv', models.CsvModel())
        self.stubs.setdefault('json', models.JsonModel())
        self.stubs.setdefault('re', regex.ReModel())
        self.builtins = dict(vars(builtins))
        self.builtins.update(models.BUILTINS)
        self.builtins['__import__'] = self.imp

    def path_of(self, name):
        parts = name.split('.')
        base = os.path.join(self.roots[parts[0]], *parts)
        p = os.path.join(base, '__init__.py')
        if os.path.isfile(p):
            return p, True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        if os.path.isdir(base):
            return None, True
        raise ModuleNotFoundError('No module named %r' % name)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            if '.' in name:
                # (a restored package may have lost it)
                up, _, last = name.rpartition('.')
                self.mods[up].__dict__.setdefault(last, m)
            return m
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, pkg = self.path_of(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = []
        self.mods[name] = m
        g = m.__dict__
        g['__builtins__'] = self.builtins
        g.update(__symex__=True, __symex_enter__=self.entered.add, __symex_in__=models.s_in,
                 __symex_notin__=models.s_notin, __symex_call__=models.s_call, __symex_slice__=slice,
                 __symex_getitem__=models.s_getitem, __symex_dict__=models.s_dict, __symex_set__=sets.s_set, __symex_or__=models.s_or, __symex_and__=models.s_and,
                 __symex_ife__=models.s_ife, __symex_merge__=models.s_merge, __symex_spread__=models._SPREAD,
                 __symex_fstr__=models.s_fstr, __symex_mod__=models.s_mod)
        try:
            if path is not None:
                with open(path) as f:
                    src = f.read()
                tree = Rewriter(name).visit(ast.parse(src, path))
                ast.fix_missing_locations(tree)
                exec(compile(tree, path, 'exec'), g)
        except BaseException:
            del self.mods[name]
            raise
        if '.' in name:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + '.' + name if name else pkg
        top = name.split('.')[0]
        if top in self.roots:
            m = self.load(name)
            if fromlist:
                for x in fromlist:
                    if x != '*' and not hasattr(m, x) and hasattr(m, '__path__'):
                        try:
                            self.load(name + '.' + x)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[top]
        if top in self.stubs:
            return self.stubs[top]
        return builtins.__import__(name, globals, locals, fromlist, 0)
