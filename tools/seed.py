"""Plants one bug in a scratch copy of /repo, confirms it (tests pass, demo fails with it and passes without) and runs the check of its property.

plant(id, prop, edits, needs, breaks, demo): edits are (file, old, new); demo is the text of demo.py, run with cwd = the repository."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
HEAD = """import os, sys
sys.path.insert(0, os.getcwd())
"""


def sh(args, cwd, **k):
    return subprocess.run(args, cwd=cwd, env=dict(ENV, **k.pop('env', {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy_repo():
    d = tempfile.mkdtemp(prefix='seed-')
    r = os.path.join(d, 'repo')
    shutil.copytree('/repo', r, symlinks=True)
    return d, r


def check(prop, repo, tier='quick'):
    return sh(['python3-vt', 'check.py', prop, tier], VERIF, env={'SYMEX_REPO': repo})


def record(id, what):
    p = os.path.join(VERIF, 'tools', 'seeds', 'caught.json')
    d = {}
    if os.path.exists(p):
        with open(p) as f:
            d = json.load(f)
    d[id] = what
    with open(p, 'w') as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write('\n')


def plant(id, prop, edits, needs, breaks, demo, run_check=True):
    out = os.path.join(VERIF, 'seeded', id)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, 'demo.py'), 'w') as f:
        f.write(HEAD + demo.lstrip('\n'))
    with open(os.path.join(out, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    with open(os.path.join(out, 'meta.json'), 'w') as f:
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f, indent=1)
        f.write('\n')
    d, r = copy_repo()
    try:
        c = sh(['bash', os.path.join(out, 'demo.sh')], r)
        if c.returncode:
            print(id, 'DEMO FAILS ON CLEAN TREE\n', c.stdout)
            return False
        for fn, old, new in edits:
            p = os.path.join(r, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'EDIT MATCHES', s.count(old), 'TIMES', fn, repr(old))
                return False
            open(p, 'w').write(s.replace(old, new))
        patch = sh(['git', 'diff'], r).stdout
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(patch)
        c = sh(['bash', os.path.join(out, 'demo.sh')], r)
        if not c.returncode:
            print(id, 'DEMO PASSES WITH THE BUG')
            return False
        t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], r)
        if t.returncode:
            print(id, 'TESTS FAIL\n', t.stdout[-800:])
            return False
        a = sh(['git', 'apply', '--check', os.path.join(out, 'patch.diff')], '/repo')
        assert a.returncode == 0, a.stdout
        if run_check:
            c = check(prop, r)
            caught = c.returncode == 1 and 'VIOLATION property=%s ' % prop in c.stdout
            record(id, prop if caught else 'MISSED')
            print(id, 'CAUGHT' if caught else 'MISSED rc=%d\n%s' % (c.returncode, c.stdout[-1500:]))
            sys.stdout.flush()
            return caught
        print(id, 'ok')
        return True
    finally:
        shutil.rmtree(d)
