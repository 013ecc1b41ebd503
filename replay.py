#!/usr/bin/env python3
"""Runs a recorded counterexample on the real, uninstrumented code in /repo.

exit 1: the property is violated (the counterexample reproduces); exit 0: it is not."""
import importlib
import json
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('SYMEX_REPO', '/repo'))
from symex import ctx as cctx  # noqa: E402


def main():
    with open(sys.argv[1]) as f:
        r = json.load(f)
    cctx.install_pil()
    known = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            known = [k['id'] for k in json.load(f)['known']]
    mod, fn = r['fn'].split(':')
    f = getattr(importlib.import_module(mod), fn)
    mods = [m for n, m in sys.modules.items() if n.split('.')[0] in ('necroassembler', 'harness', 'spec') and m]
    snap = cctx.snapshot(mods)
    d = tempfile.mkdtemp(prefix='replay-')
    cwd = os.getcwd()
    os.chdir(d)
    try:
        st, msg, det, c = cctx.run_concrete(f, r['params'], r['inputs'], known, lambda: cctx.restore(snap))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    print('%s %s' % (r.get('property', ''), r['fn']))
    print('params: %s' % json.dumps(r['params']))
    print('inputs: %s' % json.dumps(r['inputs']))
    print('result: %s' % st)
    if msg:
        print(msg)
    if det:
        print(det)
    for n, v in c.obs:
        print('  %s = %s' % (n, cctx.show(v)))
    return 1 if st in ('violated', 'crash') else 0


if __name__ == '__main__':
    sys.exit(main())
