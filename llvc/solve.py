"""Discharging obligations: explicit schema instantiation + Z3 (cvc5 binary as second back end), in parallel by forking."""
import z3, time, os, pickle, subprocess, tempfile, signal, sys
from sym import *
def collect(terms,trigs,seen,out):
    """collect index terms of selects over trigger arrays"""
    st=list(terms)
    while st:
        t=st.pop(); i=t.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(t):
            if t.decl().kind()==z3.Z3_OP_SELECT:
                a=t.arg(0)
                k=a.get_id()
                if k in trigs: out.setdefault(k,{})[t.arg(1).get_id()]=t.arg(1)
            elif t.decl().kind()==z3.Z3_OP_UNINTERPRETED and t.num_args()>0:
                k='uf:'+t.decl().name()
                if k in trigs: out.setdefault(k,{})[tuple(x.get_id() for x in t.children())]=t.arg(0)
            st.extend(t.children())
def trigkey(a):
    if isinstance(a,str): return 'uf:'+a
    return a.get_id()
def ground(facts,schemas,goal,hints=(),maxgen=2,limit=1500):
    G=list(facts)+[z3.Not(goal)]
    if not schemas: return G
    trigs=set()
    for s in schemas:
        for a in s.trig: 
            for x in (a if isinstance(a,(list,tuple)) else [a]): trigs.add(trigkey(x))
    seen=set(); pool={}; done=set(); keep=[]
    frontier=G
    hintterms={}
    for h in hints: hintterms.setdefault(h.sort().name() if False else str(h.sort()),{})[h.get_id()]=h
    n=0
    for gen in range(maxgen+1):
        collect(frontier,trigs,seen,pool); new=[]
        for si,s in enumerate(schemas):
            # candidate terms per variable; s.trig: list of arrays (all vars) or list of lists (per var)
            per=[]
            for vi,srt in enumerate(s.sorts):
                tr=s.trig[vi] if s.trig and isinstance(s.trig[0],(list,tuple)) else s.trig
                c={}
                for a in tr:
                    c.update({k:v for k,v in pool.get(trigkey(a),{}).items() if v.sort()==srt})
                c.update({k:v for k,v in hintterms.get(str(srt),{}).items()})
                per.append(c)
            import itertools
            for tup in itertools.product(*[list(c.values()) for c in per]):
                key=(si,)+tuple(t.get_id() for t in tup)
                if key in done: continue
                done.add(key); keep.append(tup)
                f=s.fn(*tup)
                if f is True: continue
                f=z3.simplify(f)
                if z3.is_true(f): continue
                new.append(f); n+=1
                if n>limit: break
        if not new: break
        G.extend(new); frontier=new
    G_keep.append(keep)
    return G
G_keep=[]
def solve_one(o,timeout=20000,maxgen=2,want_model=True):
    if o.status=='proved': return 'proved'
    t=time.time()
    res='unknown'
    gens=[0,1,maxgen] if o.schemas else [0]
    if maxgen==0: gens=[0]
    # cheap first attempt: leave out multiplication facts the goal does not need
    if not has_mul(o.goal) and any(has_mul(f) for f in o.facts):
        del G_keep[:]
        G=ground([f for f in o.facts if not has_mul(f)],o.schemas,o.goal,o.hints,0)
        s=z3.Solver(); s.set('timeout',3000); s.add(*G)
        if s.check()==z3.unsat: o.status='proved'; o.backend='z3'; o.secs=time.time()-t; return 'proved'
    for gi,g in enumerate(gens):
        del G_keep[:]
        G=ground(o.facts,o.schemas,o.goal,o.hints,g)
        s=z3.SolverFor('QF_AUFBV') if os.environ.get('LLVC_TAC') else z3.Solver()
        s.set('timeout',timeout)
        s.add(*G)
        r=s.check()
        if r==z3.unsat: res='proved'; o.backend='z3'; break
        if r==z3.sat:
            res='failed'
            if gi==len(gens)-1:
                o.model=str_model(s.model())
        else:
            res='unknown'
            if gi==len(gens)-1:
                r2=try_alt(G,timeout)
                if r2: res=r2[0]; o.backend=r2[1]
    o.status=res; o.secs=time.time()-t
    return res
def try_alt(G,timeout):
    # second configuration: bit-blasting tactic, then the cvc5 binary
    try:
        s=z3.Then('simplify','solve-eqs','bit-blast','smt').solver() if False else z3.SolverFor('QF_AUFBV')
        s.set('timeout',timeout); s.add(*G); r=s.check()
        if r==z3.unsat: return('proved','z3-qfaufbv')
        if r==z3.sat: return('failed','z3-qfaufbv')
    except z3.Z3Exception: pass
    try:
        s=z3.Solver(); s.add(*G); txt='(set-logic ALL)\n'+s.to_smt2()
        with tempfile.NamedTemporaryFile('w',suffix='.smt2',delete=False) as f: f.write(txt)
        r=subprocess.run(['cvc5','--tlimit=%d'%timeout,f.name],capture_output=True,text=True,timeout=timeout/1000+10).stdout.strip()
        os.unlink(f.name)
        if r.startswith('unsat'): return('proved','cvc5')
        if r.startswith('sat'): return('failed','cvc5')
    except Exception: pass
    return None
def str_model(m):
    out={}
    for d in m.decls():
        try:
            v=m[d]
            if isinstance(v,z3.BitVecNumRef): out[d.name()]=v.as_long()
            elif z3.is_true(v) or z3.is_false(v): out[d.name()]=bool(z3.is_true(v))
            else: out[d.name()]=str(v)[:400]
        except Exception: pass
    return out
def solve_all(obs,jobs=8,timeout=20000,maxgen=2,budget=None):
    """fork-based parallel solve; results written back into obs"""
    todo=[i for i,o in enumerate(obs) if o.status is None]
    if not todo: return
    t0=time.time()
    jobs=max(1,min(jobs,len(todo)))
    # work stealing through a pipe used as token queue
    r,w=os.pipe()
    import struct, threading
    kids=[]
    qfd_r,qfd_w=r,w
    data=b''.join(struct.pack('<I',i) for i in todo)
    def feed():
        try:
            off=0
            while off<len(data): off+=os.write(w,data[off:off+4096])
        except OSError: pass
        os.close(w)
    for j in range(jobs):
        rr,ww=os.pipe()
        pid=os.fork()
        if pid==0:
            try:
                os.close(w); os.close(rr)
                import gc; gc.disable()
                with os.fdopen(ww,'wb') as f:
                    while True:
                        b=os.read(r,4)
                        if len(b)<4: break
                        i=struct.unpack('<I',b)[0]; o=obs[i]
                        if budget and time.time()-t0>budget: o.status='unknown'; o.secs=0
                        else:
                            try: solve_one(o,timeout,maxgen)
                            except Exception as e: o.status='unknown'; o.info=repr(e)
                        pickle.dump((i,o.status,o.model,o.secs,o.backend,o.info),f); f.flush()
            finally: os._exit(0)
        os.close(ww); kids.append((pid,rr))
    th=threading.Thread(target=feed); th.start()
    os.close(r) if False else None
    import select
    bufs={rr:b'' for _,rr in kids}; live=set(bufs)
    while live:
        rd,_,_=select.select(list(live),[],[])
        for fd in rd:
            b=os.read(fd,1<<16)
            if not b: live.discard(fd)
            else: bufs[fd]+=b
    for pid,rr in kids:
        os.waitpid(pid,0); os.close(rr)
        import io
        f=io.BytesIO(bufs[rr])
        while True:
            try: i,s_,m,sec,be,info=pickle.load(f)
            except EOFError: break
            o=obs[i]; o.status=s_;o.model=m;o.secs=sec;o.backend=be;o.info=info
    th.join(); os.close(r)
    for i in todo:
        if obs[i].status is None: obs[i].status='unknown'; obs[i].info='worker died'
