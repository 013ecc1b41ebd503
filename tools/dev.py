import sys,time; sys.path.insert(0,'/verif')
sys.stdout.reconfigure(line_buffering=True)
from symex import runner
import importlib
mod,fn=sys.argv[1].split(':')
tier=sys.argv[2] if len(sys.argv)>2 else 'quick'
flt=sys.argv[3] if len(sys.argv)>3 else ''
t0=time.time()
runner.init([mod])
cases=[c for c in getattr(importlib.import_module(mod),fn)(tier) if flt in runner.case_id(c)]
TL=int(__import__('os').environ.get('TL','60'))
for c in cases: c['time_limit']=TL
print(len(cases),'cases; init',time.time()-t0)
res=runner.run_cases(cases,budget=int(__import__('os').environ.get('BUD','800')))
tot={}
nv=0
for r in res:
    for k,v in r.get('stats',{}).items(): tot[k]=tot.get(k,0)+v
    if r['error']: print('ERROR',r['case'],r['error'])
    for m in r['mismatch'][:2]: print('MISMATCH',r['case'],m)
    for v in r['violations'][:1]:
        nv+=1
        if nv<40: print('VIOL',r['case'],v['inputs'],v['msg'],(v['detail'] or '')[:500])
    if r.get('partial'): print('PARTIAL',r['case'],r['partial'])
    if not r['validated'] and not r['violations'] and not r['known']: print('VACUOUS',r['case'])
    if r['known']: print('KNOWN',r['case'],r['known'])
print(nv,'violating cases; validated',sum(r['validated'] for r in res),'wall',time.time()-t0, 'cpu', sum(r['wall_s'] for r in res))
print(tot)
print('slowest',sorted([(round(r['wall_s'],1),r['case']) for r in res])[-5:])
for r in res:
    if __import__("os").environ.get("SHOW") and r["outcomes"] and not any('ok' in k for k in r['outcomes']): print('ALLERR',r['case'],r['outcomes'])
oc={}
for r in res:
    for k,v in r['outcomes'].items(): oc[k]=oc.get(k,0)+v
print(sorted(oc.items(),key=lambda x:-x[1])[:15])
