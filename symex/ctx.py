"""The interface harnesses are written against, in its concrete form (replay on the real code).

This module must not import z3: replays run with the interpreter the tests use."""


class RequirementFailed(Exception):
    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class AssumptionFailed(Exception):
    pass


def show(x, n=400):
    if isinstance(x, (bytes, bytearray)):
        h = x.hex(' ')
        return h if len(h) <= n else h[:n] + '...(%d bytes)' % len(x)
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class ConcreteCtx:
    symbolic = False

    def __init__(self, inputs, known=()):
        self.inputs = inputs
        self.known = set(known)
        self.obs = []
        self.known_hit = []
        self.files = []

    def _get(self, name, default=0):
        # (a path that was given up early has not chosen its later inputs)
        return self.inputs.setdefault(name, default)

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def choice(self, name, options):
        return list(options)[self._get(name)]

    def pick(self, name, options):
        return list(options)[self._get(name)]

    def pickv(self, name, options):
        return list(options)[self._get(name)]

    def index(self, name, n):
        return self._get(name)

    def bool(self, name):
        return bool(self._get(name))

    def chars(self, name, n, alphabet):
        return self._get(name, alphabet[0] * n)

    def digits(self, name, n, alphabet):
        t = self._get(name, alphabet[0] * n)
        return t, [alphabet.index(c) for c in t]

    def bytes(self, name, n):
        return bytes(self._get(name, [0] * n))

    def assume(self, c):
        if not c:
            raise AssumptionFailed()

    def require(self, c, msg, known=None, detail=None):
        if c:
            return
        if known is not None and known[0] in self.known and known[1]:
            self.known_hit.append(known[0])
            raise AssumptionFailed()
        raise RequirementFailed(msg, detail)

    def fail(self, msg, known=None, detail=None):
        self.require(False, msg, known, detail)

    def bytes_eq(self, a, b):
        return bytes(a) == bytes(b)

    def require_bytes(self, got, want, msg, known=None):
        self.observe('bytes', got)
        self.require(self.bytes_eq(got, want), msg, known,
                     'got  %s\nwant %s' % (show(bytes(got)), show(bytes(want))))

    def observe(self, name, value):
        if isinstance(value, bytearray):
            value = bytes(value)
        self.obs.append((name, value))

    def attempt(self, f, *a, **k):
        try:
            r = ('ok', f(*a, **k))
        except (RequirementFailed, AssumptionFailed):
            raise
        except Exception as e:
            self.last_exc = e
            r = ('err', type(e).__name__)
        self.observe('outcome', r[0] if r[0] == 'ok' else r[1])
        return r

    def message(self):
        """the text of the exception the last attempt ended with"""
        return str(self.last_exc)

    def printed(self, f):
        """run f -> (result, lines printed)"""
        import contextlib
        import io
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r = f()
        lines = out.getvalue().split('\n')
        return r, lines[:-1] if lines[-1] == '' else lines

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *c):
        return all(c)

    def or_(self, *c):
        return any(c)

    def not_(self, c):
        return not c

    def file(self, name, content):
        self.files.append(name)
        with open(name, 'wb') as f:
            f.write(content.encode('utf-8') if isinstance(content, str) else bytes(content))

    def json_file(self, name, obj):
        import json
        self.files.append(name)
        with open(name, 'w') as f:
            json.dump(obj, f)

    def read_file(self, name):
        with open(name, 'rb') as f:
            return f.read()

    def image(self, name, width, height, pixels, mode='P', palette=None):
        import PIL.Image
        PIL.Image.FAKE[name] = (width, height, pixels, mode, palette)

    def run_main(self, f, argv):
        import sys
        old = sys.argv
        sys.argv = list(argv)
        try:
            return f()
        finally:
            sys.argv = old

    def concrete(self, x):
        return x

    def fresh(self):
        """forget everything earlier runs left in modules and classes"""
        self.fresh_fn()


def install_pil():
    """Pillow is not installed here: an in-memory stand-in for Image.open on registered images"""
    import sys
    import types
    try:
        import PIL.Image  # noqa
        if hasattr(PIL.Image, 'FAKE'):
            return
    except ImportError:
        pass
    pil = types.ModuleType('PIL')
    pil.__path__ = []
    im = types.ModuleType('PIL.Image')
    make_image_module(im)
    pil.Image = im
    sys.modules['PIL'] = pil
    sys.modules['PIL.Image'] = im


def make_image_module(im):
    im.FAKE = {}

    class Image:
        def __init__(self, width, height, pixels, mode, palette):
            self.width = width
            self.height = height
            self.size = (width, height)
            self.mode = mode
            self.palette_ = palette
            self.pixels = pixels

        def getdata(self):
            return list(self.pixels)

        def get_flattened_data(self):
            return tuple(self.pixels)

        def tobytes(self):
            return bytes(self.pixels)

        def getpixel(self, xy):
            return self.pixels[xy[1] * self.width + xy[0]]

        def load(self):
            return _Access(self)

        def getpalette(self, *a):
            return self.palette_

        def convert(self, *a, **k):
            return self

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

    class _Access:
        def __init__(self, i):
            self.i = i

        def __getitem__(self, xy):
            return self.i.getpixel(xy)

    def open(name, *a, **k):
        if name not in im.FAKE:
            raise FileNotFoundError(2, 'No such file or directory', name)
        return Image(*im.FAKE[name])
    im.Image = Image
    im.open = open


def snapshot(mods):
    """mutable state reachable from modules and classes, so that every run starts from the same state"""
    seen = {}
    classes = []

    def walk(o, depth):
        if id(o) in seen or depth > 6:
            return
        t = type(o)
        if isinstance(o, list):
            seen[id(o)] = (o, list(o))
            if len(o) < 64:
                for x in o:
                    walk(x, depth + 1)
        elif isinstance(o, dict):
            seen[id(o)] = (o, list(o.items()))
            if len(o) < 64:
                for x in o.values():
                    walk(x, depth + 1)
        elif isinstance(o, (set, bytearray)):
            seen[id(o)] = (o, t(o))
        elif isinstance(o, tuple):
            if len(o) < 64:
                for x in o:
                    walk(x, depth + 1)
        elif isinstance(o, type):
            if getattr(o, '__module__', None) in names and o not in classes:
                classes.append(o)
                for x in list(vars(o).values()):
                    walk(x, depth + 1)
        elif hasattr(o, '__defaults__') and getattr(o, '__module__', None) in names:
            for x in (o.__defaults__ or ()):
                walk(x, depth + 1)
    names = {m.__name__ for m in mods}
    for m in mods:
        for k, v in list(vars(m).items()):
            if k.startswith('__'):
                continue
            walk(v, 0)
    snap = list(seen.values())
    csnap = [(c, dict(vars(c))) for c in classes]
    msnap = [(m, dict(vars(m))) for m in mods]
    return snap, csnap, msnap


def restore(s):
    snap, csnap, msnap = s
    for o, c in snap:
        if isinstance(o, list):
            if len(o) != len(c) or any(x is not y for x, y in zip(o, c)):
                o[:] = c
        elif isinstance(o, dict):
            if len(o) != len(c) or any(x[0] is not y[0] or x[1] is not y[1] for x, y in zip(o.items(), c)):
                o.clear()
                for k, v in c:
                    o[k] = v
        elif o != c:
            if isinstance(o, set):
                o.clear()
                o.update(c)
            else:
                o[:] = c
    for c, d in csnap:
        cur = vars(c)
        if len(cur) != len(d) or any(d.get(k, restore) is not v for k, v in cur.items()):
            for k in list(cur):
                if k not in d and not k.startswith('__'):
                    delattr(c, k)
            for k, v in d.items():
                if cur.get(k, restore) is not v and k not in ('__dict__', '__weakref__', '__doc__'):
                    try:
                        setattr(c, k, v)
                    except (AttributeError, TypeError):
                        pass
    for m, d in msnap:
        cur = vars(m)
        if len(cur) != len(d) or any(d.get(k, restore) is not v for k, v in cur.items()):
            for k in list(cur):
                if k not in d:
                    delattr(m, k)
            cur.update(d)


def run_concrete(fn, params, inputs, known=(), fresh=None):
    """-> (status, message, detail, ctx)"""
    ctx = ConcreteCtx(inputs, known)
    ctx.fresh_fn = fresh
    try:
        fn(ctx, **params)
        return 'ok', None, None, ctx
    except RequirementFailed as e:
        return 'violated', e.msg, e.detail, ctx
    except AssumptionFailed:
        return 'assume', None, None, ctx
    except RecursionError:
        return 'crash', 'RecursionError', None, ctx
    except Exception as e:
        import traceback
        return 'crash', '%s: %s' % (type(e).__name__, e), traceback.format_exc(), ctx
