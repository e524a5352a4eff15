#!/usr/bin/env python3-vt
"""developer driver: dev.py PATTERN [-v]   runs the matching proof targets and prints the result"""
import sys,os,re,importlib,tempfile,shutil,time
sys.path.insert(0,'/verif/llvc'); sys.path.insert(0,'/verif/contracts')
import api
for f in sorted(os.listdir('/verif/contracts')):
    if f.endswith('.py') and f!='__init__.py': importlib.import_module(f[:-3])
pat=sys.argv[1]; v='-v' in sys.argv
ts=[t for t in api.TARGETS.values() if re.search(pat,t.name)]
d=tempfile.mkdtemp()
t0=time.time()
r=api.compile_tus(sorted({x for t in ts for x in t.tus}),d)
for n,(rc,o,txt,c) in r.items():
    if rc: print('COMPILE FAIL',n,txt[:2000])
for R in api.run_targets(ts,d):
    st={}
    for o in R.obs: st[o[2]]=st.get(o[2],0)+1
    print('%-45s %6.1fs (exec %.1f) %s %s %s'%(R.name,R.secs,R.exec_secs,st,R.err or '',R.notes if v else ''))
    seen={}
    for o in R.obs:
        if o[2]!='proved':
            k=(o[0],o[2],o[3]); seen[k]=seen.get(k,0)+1
            if seen[k]<=1: print('   ',o[2],o[0],'kind',o[1],'line',o[3],'%.1fs'%o[5],o[9] or ''); 
            if v and seen[k]<=1: print('      goal',(o[8] or '')[:400]); print('      trace',o[7]); print('      model',str({k:x for k,x in (o[6] or {}).items()})[:1200])
    if v: print('   slow:',sorted([(round(o[5],1),o[0]) for o in R.obs],reverse=True)[:5]); print('   contracts',R.contracts,'stubs',R.stubbed)
shutil.rmtree(d); print('total %.1f'%(time.time()-t0))
