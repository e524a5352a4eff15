#!/usr/bin/env python3-vt
"""check.py PROPERTY  -- decides one property on /repo's current working tree (tier from VERIF_TIER / --tier).

 1. compiles the translation units of the property to LLVM IR from /repo's sources;
 2. generates and discharges the proof obligations of every contract the property rests on (llvc: Z3, cvc5);
 3. runs the native harness of the property: a bounded stand-in for what lies outside the contracts, and the place where
    a failed obligation is replayed on the compiled real code.
exit 0: every obligation discharged (or, for contracts that could not be brought to a decision, the bounded stand-in held)
exit 1: VIOLATION line (failing input found, or a failed obligation)"""
import sys,os,re,json,time,tempfile,shutil,importlib,subprocess,signal
VERIF=os.path.dirname(os.path.abspath(__file__)); sys.path[:0]=[os.path.join(VERIF,'llvc'),os.path.join(VERIF,'contracts')]
import api
def load_contracts():
    for f in sorted(os.listdir(os.path.join(VERIF,'contracts'))):
        if f.endswith('.py') and f!='__init__.py': importlib.import_module(f[:-3])
from native_registry import NATIVE, HARNESS, BLACKBOX
def main():
    prop=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick')
    if '--tier' in sys.argv: tier=sys.argv[sys.argv.index('--tier')+1]
    seed=int(os.environ.get('VERIF_SEED','1') or 1); t0=time.time()
    load_contracts()
    props={json.loads(l)['id']:json.loads(l) for l in open(os.path.join(VERIF,'properties.jsonl'))}
    ts=[t for t in api.TARGETS.values() if prop in t.props and (tier=='thorough' or t.tier=='quick')]
    d=tempfile.mkdtemp(prefix='vchk-'); rep_dir=os.path.join(VERIF,'evidence','replay'); os.makedirs(rep_dir,exist_ok=True)
    replay=os.path.join(rep_dir,prop+'.txt')
    if os.path.exists(replay): os.unlink(replay)
    try:
        # native harnesses compile in the background while the proofs run
        nat=[]; cmds={}; bb={}
        for h,args in NATIVE.get(prop,[]):
            srcs,flags=HARNESS[h]; exe=os.path.join(d,h)
            if not any(x[0]==h for x in nat):
                cmd=['/usr/bin/g++','-std=c++11','-O1','-g','-w','-DNDEBUG','-DHAVE_CONFIG_H=1','-DCACHELOT_PLATFORM_BITS=64','-DBOOST_ALL_NO_LIB','-fno-access-control','-fsanitize=address','-fno-omit-frame-pointer','-I',VERIF+'/gen','-I',api.REPO+'/src','-I',VERIF+'/native']+flags+[s.replace('$REPO',api.REPO).replace('$VERIF',VERIF) for s in srcs]+['-o',exe,'-lboost_system','-lpthread']
                cmds[exe]=cmd; p=subprocess.Popen(cmd,stdout=subprocess.DEVNULL,stderr=open(exe+'.log','w'))
            nat.append((h,args,exe,p))
        comp=api.compile_tus(sorted({x for t in ts for x in t.tus}),d)
        bad={n for n,(rc,_,_,_) in comp.items() if rc}
        res=api.run_targets([t for t in ts if not bad&set(t.tus)],d,tier)
        skipped=[t for t in ts if bad&set(t.tus)]
        # ---- classify
        proved=failed=unknown=0; fails=[]; und=[]; solver=0.0; backends={}; kinds={}
        for R in res:
            if R.err: und.append('%s: %s'%(R.name,R.err))
            for o in R.obs:
                name,kind,st,line,be,secs,model,trace,goal,info=o; solver+=secs; kinds[kind]=kinds.get(kind,0)+1
                if st=='proved': proved+=1; backends[be or 'simplifier']=backends.get(be or 'simplifier',0)+1
                elif st=='failed': failed+=1; fails.append((R,o))
                else: unknown+=1; und.append('%s: %s undischarged (solver gave no answer)'%(R.name,name))
        for t in skipped: und.append('%s: translation unit does not compile'%t.name)
        for R in res:
            if R.err and any(o[2]=='failed' for o in R.obs): pass
        # ---- native stand-in / replay
        natres=[]; native_fail=None; ncases=0; ran=False
        secs={'quick':6,'thorough':90}[tier]
        if fails or und: secs*=5 if tier=='quick' else 2
        procs=[]
        for h,args,exe,p in nat:
            p.wait()
            if p.returncode and h in BLACKBOX and exe not in bb:
                bb[exe]=subprocess.run(cmds[exe]+['-DBLACKBOX'],stdout=subprocess.DEVNULL,stderr=open(exe+'.log','w')).returncode
            if bb.get(exe,p.returncode): natres.append('%s: harness does not compile: %s'%(h,open(exe+'.log').read()[:300])); continue
            out=os.path.join(d,h+'.'+'_'.join(args)+'.fail'); n=4 if (fails or und or tier=='thorough') else 2
            for k in range(n):
                o=out+str(k); lg=open(o+'.log','w')
                procs.append((h,args,o,subprocess.Popen([exe]+list(args)+[str(seed*1000+k),str(int(secs*1000)),o],stdout=lg,stderr=subprocess.STDOUT,cwd=d,env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=3000'))))
        for h,args,o,pr in procs:
            try: rc=pr.wait(timeout=secs*4+60)
            except subprocess.TimeoutExpired: pr.kill(); pr.wait(); natres.append('%s: timeout'%h); rc=0; hang=True; continue
            ran=True; log=open(o+'.log').read(); m=re.findall(r'cases (\d+)',log); ncases+=int(m[-1]) if m else 0
            if rc!=0 and native_fail is None: native_fail=(h,args,rc,(open(o).read() if os.path.exists(o) else '')+'\n'+log[-3000:])
        # ---- report
        viol=[]
        if native_fail or fails:
            with open(replay,'w') as f:
                f.write('property %s: %s\n\n'%(prop,props[prop]['title']))
                if fails:
                    f.write('FAILED OBLIGATIONS (passed on the unchanged tree)\n')
                    for R,o in fails[:20]:
                        f.write('  %s  [%s] source line %s\n    goal: %s\n    path: %s\n    counterexample: %s\n'%(o[0],o[1],o[3],o[8],o[7],json.dumps(o[6],default=str)[:2500]))
                if native_fail: f.write('\nFAILING INPUT on the compiled code (harness %s %s, exit %d)\n%s\n'%(native_fail[0],' '.join(native_fail[1]),native_fail[2],native_fail[3]))
                else: f.write('\nno failing input was found by the native search (%d cases)\n'%ncases)
            line='VIOLATION property=%s replay=%s'%(prop,replay)
            if not native_fail: line+=' no-failing-input-found'
            viol.append(line)
        ok_scope=proved>0 or ran
        total=proved+failed+unknown
        lvl='proof' if (ts and not und) else ('other' if ran or ts else 'other')
        cov=dict(obligations=total,discharged=proved,checker_cmd='python3-vt check.py %s'%prop,
                 trusted_base=sorted(set(['clang 18 front end (-O0 LLVM IR of the real sources is taken as their meaning)','llvc symbolic executor and obligation generator (/verif/llvc)','Z3 4.x / cvc5 1.1.2 answers of unsat']+[x for R in res for x in R.trusted])),
                 functions_under_contract=sorted({f for R in res for f in R.funcs}),
                 functions_inlined_in_proofs=len({f for R in res for f in R.inlined}),
                 contracts_used_at_call_sites=sorted({f for R in res for f in R.contracts}),
                 library_stubs_assumed=sorted({f for R in res for f in R.stubbed}),
                 targets={R.name:{'obligations':len(R.obs),'secs':round(R.secs,1),'status':R.err or ('proved' if all(o[2]=='proved' for o in R.obs) else 'not proved')} for R in res},
                 obligations_by_kind=kinds,back_ends=backends,solver_seconds=round(solver,1),undecided=und,
                 native_bounded=dict(cases=ncases,harnesses=sorted({h for h,_,_,_ in nat}),note='bounded stand-in / assumption check, never counted as proved',problems=natres),explanation='deductive verification of the LLVM IR of the real functions; undecided contracts fall back to a bounded native run and are listed')
        ev=dict(property=prop,tier=tier,seed=seed,level='proof' if total and not und else 'other',coverage=cov,assumptions=cov['trusted_base'],wall_s=round(time.time()-t0,1),violations=viol)
        json.dump(ev,open(os.path.join(VERIF,'evidence',prop+'.json'),'w'),indent=1)
        print('%s [%s] obligations %d, discharged %d, failed %d, undecided %d; native cases %d; %.1fs'%(prop,tier,total,proved,failed,len(und),ncases,time.time()-t0))
        for u in und[:10]: print('  undecided:',u)
        for x in natres: print('  native:',x)
        kf=os.path.join(VERIF,'known_findings.txt')
        if os.path.exists(kf):
            for l in open(kf):
                if l.startswith('known: property=%s '%prop): print('KNOWN-FINDING: '+l[len('known: '):].strip())
        for v in viol: print(v)
        sys.exit(1 if viol else (0 if ok_scope else 2))
    finally: shutil.rmtree(d,ignore_errors=True)
main()
