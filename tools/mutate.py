"""Mutation of the code under test, to find what the checks miss.

mutate.py gen FILE N OUT   samples N mutants of a file of /repo that survive its tests (one JSON object per line)
mutate.py run IN OUT       runs the checks of the mutated file on each of them in a scratch copy, until one reports a violation"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'],
       ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-', '|'], ast.Sub: ['+'], ast.Mult: ['+'], ast.LShift: ['>>'], ast.RShift: ['<<'], ast.BitOr: ['&', '^'],
       ast.BitAnd: ['|'], ast.FloorDiv: ['*'], ast.Mod: ['//'], ast.BitXor: ['|']}
FILES = {
    'necroassembler/cpu/mos6502.py': ['I01'], 'necroassembler/cpu/z80.py': ['I02'], 'necroassembler/cpu/lr35902.py': ['I03'],
    'necroassembler/cpu/intel8086.py': ['I04'], 'necroassembler/cpu/mips32.py': ['I05'], 'necroassembler/cpu/thumb.py': ['I06'],
    'necroassembler/cpu/mc68000.py': ['I07'], 'necroassembler/cpu/powerpc.py': ['I08'],
    'necroassembler/platforms/gameboy.py': ['P01'], 'necroassembler/platforms/gba.py': ['P04'], 'necroassembler/platforms/genesis.py': ['P04'],
    'necroassembler/platforms/nes.py': ['P02'], 'necroassembler/platforms/sms.py': ['P03'], 'necroassembler/platforms/psx.py': ['P05'],
    'necroassembler/linker.py': ['C15', 'C05'], 'necroassembler/tokenizer.py': ['C17', 'C12', 'C08', 'C11'],
    'necroassembler/macros.py': ['C10', 'C17'], 'necroassembler/utils.py': ['C16', 'C02', 'C03', 'C01', 'C12', 'C05'],
    'necroassembler/statements.py': ['C17', 'C05', 'C10', 'C11', 'C12', 'C15', 'C07', 'M02', 'I03', 'C14'],
    'necroassembler/__init__.py': ['M01'], 'necroassembler/exceptions.py': ['C17', 'C05'],
    'necroassembler/assembler.py': ['M02', 'M01', 'C13', 'C17', 'C15', 'C11', 'C02', 'C03', 'C10', 'C04', 'C08', 'C05', 'C12', 'C01', 'C07', 'C06', 'P01', 'C09', 'C14'],
}


# the assembler: which checks look at which functions
FUNCS = [('main|save|link|pre_|post_|_discover|assemble_file|register_instr', ['M01', 'M02', 'C14', 'P01', 'C15']), ('_resolve_labels', ['C02', 'C03', 'C17', 'M02', 'C05', 'C04']),
         ('math|formula', ['C04', 'C01', 'C11', 'I01']), ('parse_integer|add_label', ['C01', 'C02', 'C03', 'C04', 'C08', 'I01']),
         ('get_label', ['C03', 'C02', 'C04', 'C05', 'C15', 'I01']), ('_assemble_statements|log', ['M02', 'C17', 'C13', 'C12']),
         ('^assemble$|change_org|directive_org', ['C06', 'C13', 'C14', 'C09']), ('fill|goto|upto|align|ram', ['C07', 'C06', 'C09', 'P01']),
         ('repeat|append_assembled', ['C07', 'C09', 'C15']), ('section|export', ['C15', 'C14', 'C05']), ('inc|json|csv|stringify', ['C13', 'C17']),
         ('parse_bytes', ['P01', 'P02']), ('directive_d[bwd]|directive_dd|to_str', ['C08', 'C02', 'C09']), ('macro', ['C10', 'C17']),
         ('define', ['C11', 'C10', 'C14']), ('register', ['C11', 'C12', 'C14', 'I01'])]


def checks_of(m):
    if m['file'] != 'necroassembler/assembler.py':
        return FILES[m['file']]
    with open(os.path.join('/repo', m['file'])) as f:
        tree = ast.parse(f.read())
    name = ''
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.lineno <= m['line'] <= n.end_lineno:
            name = name or n.name
    import re
    for k, v in FUNCS:
        if name and re.search(k, name):
            return v
    return ['C01', 'C02', 'C07', 'C08', 'C14', 'C11']


def mutants(src):
    tree = ast.parse(src)
    starts = [0]
    for line in src.splitlines(True):
        starts.append(starts[-1] + len(line.encode()))
    raw = src.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def edit(a, b, new, what, node):
        out.append((a, b, new, what, node.lineno))

    deco = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                for x in ast.walk(d):
                    deco.add(id(x))
        if isinstance(n, ast.JoinedStr):
            for x in ast.walk(n):
                deco.add(id(x))
    for n in ast.walk(tree):
        if id(n) in deco:
            continue
        if isinstance(n, ast.Constant) and type(n.value) is int:
            a, b = pos(n)
            for v in {n.value + 1, n.value - 1, n.value * 2, n.value ^ 0x10}:
                if v != n.value:
                    edit(a, b, '(%d)' % v if v < 0 else str(v), 'const %s -> %d' % (raw[a:b].decode(), v), n)
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            a, b = pos(n)
            edit(a, b, str(not n.value), 'not %r' % n.value, n)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            a = pos(n.left)[1]
            b = pos(n.comparators[0])[0]
            mid = raw[a:b].decode()
            if '(' in mid or ')' in mid:
                continue
            for o in CMP[type(n.ops[0])]:
                edit(a, b, ' %s ' % o, '%s -> %s' % (mid.strip(), o), n)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a = pos(n.left)[1]
            b = pos(n.right)[0]
            mid = raw[a:b].decode()
            if '(' in mid or ')' in mid:
                continue
            for o in BIN[type(n.op)]:
                edit(a, b, ' %s ' % o, '%s -> %s' % (mid.strip(), o), n)
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n)
            parts = [raw[slice(*pos(v))].decode() for v in n.values]
            op = 'or' if isinstance(n.op, ast.And) else 'and'
            edit(a, b, (' %s ' % op).join('(%s)' % p for p in parts), 'bool %s' % op, n)
            for i in range(len(parts)):
                rest = parts[:i] + parts[i + 1:]
                edit(a, b, '(' + ((' and ' if op == 'or' else ' or ').join('(%s)' % p for p in rest)) + ')', 'drop %s' % parts[i], n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = pos(n)
            edit(a, b, raw[slice(*pos(n.operand))].decode(), 'drop not', n)
        elif isinstance(n, (ast.If, ast.IfExp)):
            a, b = pos(n.test)
            edit(a, b, 'False', 'if False: %s' % raw[a:b].decode()[:60], n)
            edit(a, b, 'True', 'if True: %s' % raw[a:b].decode()[:60], n)
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, b = pos(n)
                    args = [raw[slice(*pos(x))].decode() for x in n.args] + ['%s=%s' % (q.arg, raw[slice(*pos(q.value))].decode())
                                                                               for q in n.keywords if q is not k and q.arg]
                    edit(a, b, '%s(%s)' % (raw[slice(*pos(n.func))].decode(), ', '.join(args)), 'drop keyword %s' % k.arg, n)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('upper', 'lower', 'strip') and not n.args:
                a, b = pos(n)
                edit(a, b, raw[slice(*pos(n.func.value))].decode(), 'drop .%s()' % n.func.attr, n)
        elif isinstance(n, (ast.Raise, ast.AugAssign, ast.Delete, ast.Continue, ast.Break)) or \
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            a, b = pos(n)
            edit(a, b, 'pass', 'drop %s' % raw[a:b].decode()[:60], n)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for x, d in ((n.slice.lower, 1), (n.slice.upper, 1)):
                if isinstance(x, ast.Constant):
                    continue
                if x is not None:
                    a, b = pos(x)
                    edit(a, b, '(%s) + 1' % raw[a:b].decode(), 'slice + 1', n)
    res = []
    for a, b, new, what, line in out:
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            compile(m, 'x', 'exec')
        except Exception:
            continue
        res.append({'line': line, 'what': what, 'a': a, 'b': b, 'new': new})
    return res


def apply(path, m):
    raw = open(path, 'rb').read()
    with open(path, 'wb') as f:
        f.write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])


def copy_repo():
    d = tempfile.mkdtemp(prefix='mut-')
    shutil.copytree('/repo', os.path.join(d, 'repo'), symlinks=True, ignore=shutil.ignore_patterns('.git'))
    return d, os.path.join(d, 'repo')


def gen(fn, n, out):
    rnd = random.Random(fn + os.environ.get('MUT_SEED', ''))
    src = open(os.path.join('/repo', fn)).read()
    ms = mutants(src)
    rnd.shuffle(ms)
    lines = src.split('\n')
    d, r = copy_repo()
    kept = 0
    tried = 0
    seen = set()
    try:
        for m in ms:
            if kept >= n:
                break
            if m['line'] in seen:
                continue
            p = os.path.join(r, fn)
            apply(p, m)
            tried += 1
            t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=r, env=ENV, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=300)
            shutil.copyfile(os.path.join('/repo', fn), p)
            if t.returncode:
                continue
            seen.add(m['line'])
            kept += 1
            with open(out, 'a') as f:
                f.write(json.dumps(dict(m, file=fn, text=lines[m['line'] - 1].strip())) + '\n')
        print(fn, 'mutants', len(ms), 'tried', tried, 'survive', kept, flush=True)
    finally:
        shutil.rmtree(d)


def run(src, out):
    done = set()
    if os.path.exists(out):
        for line in open(out):
            m = json.loads(line)
            done.add((m['file'], m['a'], m['new']))
    for line in open(src):
        m = json.loads(line)
        if (m['file'], m['a'], m['new']) in done:
            continue
        d, r = copy_repo()
        try:
            apply(os.path.join(r, m['file']), m)
            m['result'] = 'MISSED'
            m['rcs'] = []
            for pid in checks_of(m):
                t = subprocess.run(['python3-vt', 'check.py', pid, 'quick'], cwd=VERIF, env=dict(ENV, SYMEX_REPO=r), stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                m['rcs'].append((pid, t.returncode, 'INCONCLUSIVE' in t.stdout))
                if t.returncode == 1:
                    m['result'] = pid
                    break
        finally:
            shutil.rmtree(d)
        with open(out, 'a') as f:
            f.write(json.dumps(m) + '\n')
        print(m['result'], m['file'], m['line'], m['what'], '|', m['text'], m['rcs'] if m['result'] == 'MISSED' else '', flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2], int(sys.argv[3]), sys.argv[4])
    else:
        run(sys.argv[2], sys.argv[3])
