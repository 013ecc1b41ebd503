#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decides one property of the code in /repo.

exit 0: held on everything explored; exit 1: VIOLATION line(s); exit 2: no answer (an error of the machinery)."""
import importlib
import json
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from symex import runner            # noqa: E402
from props import PROPS             # noqa: E402

ASSUME = [
    'the symbolic executor (symex/) gives CPython semantics to the constructs it meets; every explored path is re-run '
    'with a model of its path condition on the unmodified code under CPython and the observations are compared',
    'z3 4.x verdicts (QF_BV); "unknown" and time-outs are reported as inconclusive, never as success',
    'struct, csv, json, open() and Pillow are replaced by models while a path is symbolic',
]


def main():
    pid = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    prop = PROPS[pid]
    t0 = time.monotonic()
    mods = sorted({c.split(':')[0] for c in prop['cases']})
    runner.init(mods)
    cases = []
    for c in prop['cases']:
        mod, fn = c.split(':')
        cases += getattr(importlib.import_module(mod), fn)(tier)
    budget = 660 if tier == 'quick' else 6 * 3600
    for c in cases:
        c.setdefault('time_limit', 240 if tier == 'quick' else 1800)
    bad = []

    def progress(r):
        if r['violations']:
            bad.append(r)
    results = runner.run_cases(cases, progress=progress, budget=budget, stop=lambda: len(bad) >= 4)
    viol, known, mism, errors, partial, vac = [], {}, [], [], {}, []
    stats = {}
    funcs = set()
    outcomes = {}
    samples = []
    nval = reqs = complete = 0
    for r in results:
        for k, v in (r.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + v
        viol += r['violations']
        for k in r['known']:
            known.setdefault(k['id'], k)
        mism += [(r['case'], m) for m in r['mismatch']]
        if r['error']:
            errors.append((r['case'], r['error']))
        if r.get('partial'):
            partial[r['case']] = {str(k)[:200]: v for k, v in r['partial'].items()}
        elif not r['error'] and not r['mismatch']:
            complete += 1
            if not r['validated'] and not r['violations'] and not r['known']:
                vac.append(r['case'])
        funcs.update(r.get('functions', ()))
        nval += r['validated']
        reqs += r['reqs']
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        if r['samples'] and len(samples) < 12 and (len(samples) < 4 or hash_spread(r['case'], seed)):
            samples.append({'case': r['case'], **r['samples'][0]})
    printed = []
    rdir = os.path.join(HERE, 'replays')
    seen = set()
    for v in sorted(viol, key=lambda v: (v['msg'] or '', str(v['inputs']))):
        if len(printed) >= 5 or (v['msg'], v['fn']) in seen:
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (pid, len(printed) + 1))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'fn': v['fn'], 'params': v['params'], 'inputs': v['inputs'], 'msg': v['msg'],
                       'detail': v['detail']}, f, indent=1)
        ok, out = runner.replay(path)
        if not ok:
            mism.append((v['fn'], 'counterexample does not reproduce in a fresh interpreter: %s' % out[-600:]))
            continue
        seen.add((v['msg'], v['fn']))
        printed.append(path)
        print('%s: %s' % (v['fn'], v['msg']))
        if v['detail']:
            print(str(v['detail'])[:1500])
        print('inputs %s params %s' % (json.dumps(v['inputs']), json.dumps(v['params'])))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    listed = [k for k in runner.load_known_file()['known'] if k['property'] == pid]
    for k in listed:
        if k['id'] in known:
            print('KNOWN-FINDING: property=%s %s [%s; e.g. %s]' % (pid, k['what'], k['id'], json.dumps(known[k['id']]['inputs'])))
    wall = time.monotonic() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': stats.get('paths', 0),
            'transitions': stats.get('branches', 0) + stats.get('choices', 0) + stats.get('forced', 0),
            'traces_validated_against_impl': nval,
            'samples': samples,
            'cases': len(cases), 'cases_explored': len([r for r in results if r['case'] != 'budget']),
            'cases_complete': complete,
            'exhaustive': False,
            'queries': stats.get('queries', 0), 'queries_sat': stats.get('sat', 0),
            'queries_unsat': stats.get('unsat', 0), 'queries_unknown': stats.get('unknown', 0),
            'solver_s': round(stats.get('solver_s', 0), 2),
            'assertions_discharged': reqs,
            'outcomes': dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:12]),
            'functions_encoded': sorted(funcs),
            'bounds': prop['bounds'],
            'outside': prop.get('outside', ''),
            'incomplete_cases': dict(list(partial.items())[:40]), 'incomplete_count': len(partial),
            'vacuous_cases': vac[:20],
            'known_findings_hit': sorted(known),
            'encoding_mismatches': [list(m) for m in mism[:10]],
            'explanation': 'states = complete symbolic paths of the real code, transitions = decisions on symbolic data; each path is '
                           'one solver-decided region of the input space; exhaustive within bounds for cases_complete',
        },
        'assumptions': ASSUME + prop.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': len(printed),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases, %d complete, %d paths, %d validated on the real code, %d assertions, %d queries, %.1f s solver, %.1f s wall'
          % (pid, tier, len(cases), complete, stats.get('paths', 0), nval, reqs, stats.get('queries', 0),
             stats.get('solver_s', 0), wall))
    if partial:
        print('INCONCLUSIVE in part: %d cases not explored completely (see evidence)' % len(partial))
    if printed:
        return 1
    for c, m in mism[:5]:
        print('ENCODING MISMATCH %s: %s' % (c, m))
    for c, m in errors[:5]:
        print('ERROR %s: %s' % (c, m))
    if vac:
        print('VACUOUS: %s' % vac[:10])
    if mism or errors:
        # what the encoding gets wrong is never reported (the real code was run on it) and counts as not explored
        print('INCONCLUSIVE in part: %d cases the encoding does not follow' % len({c for c, _ in mism + errors}))
    if cases and (not nval or 2 * complete < len(cases) and (mism or errors)):
        return 2
    return 0


def hash_spread(s, seed):
    h = seed
    for ch in s:
        h = (h * 131 + ord(ch)) & 0xffffffff
    return h % 17 == 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
