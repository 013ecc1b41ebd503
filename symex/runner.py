"""Explores harness cases symbolically, validates every path on the real code, writes replays and evidence."""
import importlib
import json
import ctypes
import multiprocessing
import multiprocessing.connection
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMEX_REPO', '/repo')

from . import core, models, symctx, ctx as cctx          # noqa: E402
from .loader import Loader                               # noqa: E402

G = {}


def case_id(case):
    fn, params = case['fn'], case.get('params', {})
    return fn + '(' + ','.join('%s=%s' % (k, v if not isinstance(v, (list, dict)) else json.dumps(v)) for k, v in params.items()) + ')'


def init(mods):
    """load the code twice: instrumented and as it is"""
    sys.dont_write_bytecode = True
    cctx.install_pil()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    ld = Loader({'necroassembler': REPO, 'harness': VERIF, 'spec': VERIF}, {'PIL': symctx.PIL})
    for m in mods:
        ld.load(m)
        importlib.import_module(m)
    # everything else now, so that what a path changes in a module can be undone
    for root in ('necroassembler', 'spec'):
        base = ld.roots[root]
        for d, _, fs in sorted(os.walk(os.path.join(base, root))):
            for f in sorted(fs):
                if f.endswith('.py') and not f.startswith('__'):
                    m = os.path.relpath(os.path.join(d, f), base)[:-3].replace(os.sep, '.')
                    try:
                        ld.load(m)
                        importlib.import_module(m)
                    except Exception:
                        pass
    G['ld'] = ld
    G['known'] = [k['id'] for k in load_known()]


def load_known_file():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {'known': [], 'fixed': []}
    with open(p) as f:
        return json.load(f)


def load_known():
    return load_known_file()['known']


def get_fn(mods, name):
    mod, fn = name.split(':')
    return getattr(mods(mod), fn)


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def run_case(case):
    t0 = time.monotonic()
    res = {'case': case_id(case), 'violations': [], 'known': [], 'mismatch': [], 'validated': 0, 'reqs': 0,
           'samples': [], 'error': None, 'outcomes': {}}
    try:
        _run_case(case, res)
    except BaseException:
        res['error'] = traceback.format_exc()
    res['wall_s'] = time.monotonic() - t0
    return res


def _run_case(case, res):
    ld = G['ld']
    mod = case['fn'].split(':')[0]
    sfn = get_fn(ld.load, case['fn'])
    cfn = get_fn(importlib.import_module, case['fn'])
    params = case.get('params', {})
    eng = core.Engine(max_paths=case.get('max_paths', 100000), time_limit=case.get('time_limit', 240),
                      query_timeout_ms=case.get('query_ms', 60000), conc_cap=case.get('conc_cap', 300))
    smods = list(ld.mods.values())
    cmods = [m for n, m in sys.modules.items() if n.split('.')[0] in ('necroassembler', 'harness', 'spec') and m]
    ssnap = cctx.snapshot(smods)
    csnap = cctx.snapshot(cmods)
    ld.entered.clear()
    known = G['known']
    state = {'probes': 0}

    def run():
        cctx.restore(ssnap)
        models.VFILES.reset()
        models.VJSON.clear()
        symctx.PIL_IMAGE.FAKE.clear()
        eng.fresh_n = 0
        c = symctx.SymCtx(eng, known)
        c.fresh_fn = lambda: cctx.restore(ssnap)
        state['ctx'] = c
        state['crash'] = None
        state['known_end'] = False
        try:
            sfn(c, **params)
        except symctx.PathViolation:
            pass
        except core.PathInfeasible:
            if not c.known_hits:
                raise
            state['known_end'] = True
        except Exception as e:
            state['crash'] = '%s: %s' % (type(e).__name__, e)
            state['tb'] = traceback.format_exc()

    scratch = tempfile.mkdtemp(prefix='symex-', dir=G.get('root'))
    cwd = os.getcwd()

    def concrete(inputs):
        cctx.restore(csnap)
        import PIL.Image
        PIL.Image.FAKE.clear()
        os.chdir(scratch)
        old = sys.stdout
        sys.stdout = open(os.devnull, 'w')
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(30)
        try:
            return cctx.run_concrete(cfn, params, inputs, known, lambda: cctx.restore(csnap))
        except Timeout:
            return 'crash', 'timeout', None, cctx.ConcreteCtx(inputs)
        finally:
            signal.alarm(0)
            sys.stdout.close()
            sys.stdout = old
            os.chdir(cwd)
            for n in os.listdir(scratch):
                p = os.path.join(scratch, n)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)

    def on_path(status):
        c = state['ctx']
        res['reqs'] += c.reqs
        if len(res['violations']) >= 3:
            raise_stop()
        for kid, m in c.known_hits:
            if not any(k['id'] == kid for k in res['known']):
                inputs = symctx.model_inputs(eng, c.inputs, m)
                st, msg, det, cc = concrete(inputs)
                if st == 'assume' and kid in cc.known_hit:
                    res['known'].append({'id': kid, 'inputs': inputs})
                elif st == 'violated':
                    add_violation(c, inputs, msg, det)
                else:
                    res['mismatch'].append('known finding %s did not reproduce (%s)' % (kid, st))
        if state['known_end']:
            return
        if c.violation is not None:
            msg, m = c.violation
            inputs = symctx.model_inputs(eng, c.inputs, m)
            st, cmsg, det, cc = concrete(inputs)
            if st == 'violated' or st == 'crash':
                add_violation(c, inputs, cmsg, det)
            else:
                res['mismatch'].append('counterexample %r for %r does not reproduce (%s)' % (inputs, msg, st))
            return
        if state['crash'] is not None and status == 'ok':
            m = eng.get_model()
            inputs = symctx.model_inputs(eng, c.inputs, m)
            st, cmsg, det, cc = concrete(inputs)
            if st in ('violated', 'crash'):
                add_violation(c, inputs, cmsg, det)
            else:
                res['mismatch'].append('symbolic crash %s not real: %s\n%s' % (state['crash'], inputs, state.get('tb')))
            return
        m = eng.get_model() if eng.model is None or status != 'ok' else eng.model
        inputs = symctx.model_inputs(eng, c.inputs, m)
        st, cmsg, det, cc = concrete(inputs)
        if st in ('violated', 'crash'):
            add_violation(c, inputs, cmsg, det)
            if status == 'ok':
                res['mismatch'].append('missed by the encoding: %s' % cmsg)
            return
        if status != 'ok':
            # the path could not be followed to its end: other models of the part that was
            for k in range(6):
                if state['probes'] >= 60:
                    break
                state['probes'] += 1
                inputs = symctx.model_inputs(eng, c.inputs, symctx.other_model(eng, c.inputs, state['probes']))
                st, cmsg, det, cc = concrete(inputs)
                if st in ('violated', 'crash'):
                    add_violation(c, inputs, cmsg, det)
                    return
            return
        if st == 'assume':
            res['mismatch'].append('assumption fails concretely: %r' % (inputs,))
            return
        want = [(n, symctx.model_value(eng, v, m)) for n, v in c.obs]
        got = [(n, v) for n, v in cc.obs]
        if norm(want) != norm(got):
            res['mismatch'].append('observations differ on %r:\n  symbolic %s\n  real     %s' % (
                inputs, cctx.show(want, 900), cctx.show(got, 900)))
            return
        res['validated'] += 1
        key = ';'.join(str(v) for n, v in got if n == 'outcome')
        res['outcomes'][key] = res['outcomes'].get(key, 0) + 1
        if len(res['samples']) < 2:
            res['samples'].append({'inputs': inputs, 'observed': [[n, cctx.show(v, 120)] for n, v in got][:6]})

    def add_violation(c, inputs, msg, det):
        res['violations'].append({'msg': msg, 'detail': det, 'inputs': inputs, 'fn': case['fn'], 'params': params})

    def raise_stop():
        raise StopIteration

    try:
        try:
            eng.explore(run, on_path)
        except StopIteration:
            pass
    finally:
        core.ENGINE = None
        shutil.rmtree(scratch, ignore_errors=True)
        cctx.restore(ssnap)
        cctx.restore(csnap)
    res['stats'] = eng.stats
    res['partial'] = eng.abort_reasons
    res['functions'] = sorted(f for f in ld.entered if f.startswith('necroassembler'))


def norm(obs):
    out = []
    for n, v in obs:
        if isinstance(v, bytearray):
            v = bytes(v)
        if isinstance(v, bool):
            v = int(v)
        out.append((n, v))
    return out


def run_chunk(cs):
    return [run_case(c) for c in cs]


def run_cases(cases, jobs=None, progress=None, budget=None, stop=None):
    """explore all cases; -> list of results"""
    jobs = jobs or min(8, os.cpu_count() or 1)
    t0 = time.monotonic()
    out = []
    if jobs == 1 or len(cases) == 1:
        for c in cases:
            out.append(run_case(c))
            if progress:
                progress(out[-1])
            if stop is not None and stop():
                break
        return out
    # expensive cases first
    order = sorted(range(len(cases)), key=lambda i: -cases[i].get('cost', 1))
    size = max(1, min(8, len(cases) // (jobs * 8)))
    chunks = [[cases[i] for i in order[k:k + size]] for k in range(0, len(order), size)]
    left = len(cases)

    def unexplored(why):
        return {'case': 'budget', 'error': None, 'violations': [], 'known': [], 'mismatch': [], 'validated': 0,
                'reqs': 0, 'samples': [], 'outcomes': {}, 'stats': {}, 'functions': [], 'wall_s': 0, 'partial': {why: 1}}
    workers = {}
    chunks.reverse()
    G['root'] = root = tempfile.mkdtemp(prefix='symex-')
    try:
        while left:
            while chunks and len(workers) < jobs:
                w = _Worker()
                w.give(chunks.pop())
                workers[w.conn] = w
            t = None if budget is None else max(0, budget - (time.monotonic() - t0))
            ready = multiprocessing.connection.wait(list(workers), t)
            if not ready:
                x = unexplored('wall budget exhausted with %d cases left' % left)
                x['partial'] = {'wall budget exhausted with %d cases left' % left: left}
                out.append(x)
                break
            for conn in ready:
                w = workers[conn]
                try:
                    r = conn.recv()
                except (EOFError, OSError):
                    # the worker is gone (memory): its cases are not explored
                    r = [unexplored('worker lost') for c in w.chunk]
                    w.tasks = 1 << 30
                left -= len(r)
                out.extend(r)
                if progress:
                    for x in r:
                        progress(x)
                if w.tasks >= 100 or not chunks:
                    w.end()
                    del workers[conn]
                else:
                    w.give(chunks.pop())
            if stop is not None and stop():
                break
    finally:
        for w in workers.values():
            w.kill()
        G.pop('root')
        shutil.rmtree(root, ignore_errors=True)
    return out


class _Worker:
    """a forked process that explores the chunks of cases it is given"""

    def __init__(self):
        self.conn, other = multiprocessing.Pipe()
        self.tasks = 0
        self.chunk = []
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if not self.pid:
            code = 0
            try:
                self.conn.close()
                # no worker outlives the check
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                while True:
                    c = other.recv()
                    if c is None:
                        break
                    other.send(run_chunk(c))
            except BaseException:
                code = 1
            os._exit(code)
        other.close()

    def give(self, chunk):
        self.tasks += 1
        self.chunk = chunk
        try:
            self.conn.send(chunk)
        except OSError:
            pass

    def end(self):
        try:
            self.conn.send(None)
        except OSError:
            pass
        self.kill()

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        self.conn.close()


def replay(path):
    """run the counterexample on the real code in a fresh interpreter; -> (reproduced, output)"""
    py = '/opt/venv/bin/python'
    if not os.path.exists(py):
        py = sys.executable
    r = subprocess.run([py, os.path.join(VERIF, 'replay.py'), path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=120, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    return r.returncode == 1, r.stdout.decode(errors='replace')
