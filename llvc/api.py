"""Build of the verified modules, registry of proof targets, parallel runner."""
import os, re, sys, subprocess, tempfile, time, traceback, pickle, hashlib
import z3
from sym import *
import sym, solve
from ir import Module
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('LLVC_REPO','/repo')
CLANG='/usr/bin/clang++-18'
TUS={}      # name -> (path, is_repo_source, extra flags)
TARGETS={}  # name -> Target
class Target:
    def __init__(s,name,group,props,tus,fn,funcs,timeout,maxgen,tier): s.name=name;s.group=group;s.props=props;s.tus=tus;s.fn=fn;s.funcs=funcs;s.timeout=timeout;s.maxgen=maxgen;s.tier=tier
def tu(name,path,flags=()): TUS[name]=(path,list(flags))
def target(name,props,tus,group=None,funcs=(),timeout=20000,maxgen=2,tier='quick'):
    def deco(fn):
        TARGETS[name]=Target(name,group or fn.__module__,props.split() if isinstance(props,str) else props,tus.split() if isinstance(tus,str) else tus,fn,list(funcs),timeout,maxgen,tier); return fn
    return deco
CXXFLAGS=['-std=c++11','-DNDEBUG','-DHAVE_CONFIG_H=1','-DCACHELOT_PLATFORM_BITS=64','-DBOOST_SYSTEM_NO_DEPRECATED','-O0','-g','-fno-discard-value-names','-Xclang','-disable-O0-optnone','-fno-access-control','-w']
def compile_tus(names,out):
    """compile the needed translation units of /repo's current tree to LLVM IR, in parallel"""
    gen=os.path.join(VERIF,'gen')
    procs={}
    for n in names:
        path,fl=TUS[n]; path=path.replace('$REPO',REPO).replace('$VERIF',VERIF); o=os.path.join(out,n+'.ll')
        cmd=[CLANG]+CXXFLAGS+fl+['-I',gen,'-I',os.path.join(REPO,'src'),'-S','-emit-llvm',path,'-o',o]
        procs[n]=(subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True),o,' '.join(cmd))
    res={}
    for n,(p,o,c) in procs.items():
        t,_=p.communicate(); res[n]=(p.returncode,o,t,c)
    return res
# ---- debug-info layouts
class Layouts:
    def __init__(s,path):
        txt=open(path).read(); s.md={}
        for m in re.finditer(r'^!(\d+) = (?:distinct )?!(\w+)\((.*)\)$',txt,re.M): s.md[m.group(1)]=(m.group(2),m.group(3))
        s.lists={m.group(1):re.findall(r'!(\d+)',m.group(2)) for m in re.finditer(r'^!(\d+) = (?:distinct )?!\{(.*)\}$',txt,re.M)}
        s.structs={}
        for i,(k,b) in s.md.items():
            if k=='DICompositeType' and ('DW_TAG_class_type' in b or 'DW_TAG_structure_type' in b or 'DW_TAG_union_type' in b):
                nm=re.search(r'name: "([^"]*)"',b)
                if nm and 'flags: DIFlagFwdDecl' not in b: s.structs.setdefault(nm.group(1),[]).append(i)
    def scope(s,i):
        b=s.md[i][1]; m=re.search(r'scope: !(\d+)',b); out=[]
        while m and m.group(1) in s.md:
            k,bb=s.md[m.group(1)]
            if k not in('DINamespace','DICompositeType'): break
            n=re.search(r'name: "([^"]*)"',bb); out.append(n.group(1) if n else ''); m=re.search(r'scope: !(\d+)',bb)
        return '::'.join(reversed(out))
    def layout(s,name,scope=None,start=False):
        """member -> (offset bytes, size bytes); bitfields -> (offset bits,size bits,'bit')"""
        c=[i for n,l in s.structs.items() if (n==name or (start and n.startswith(name))) for i in l if scope is None or s.scope(i).startswith(scope)]
        if not c: raise Unsupported('layout of %s not found'%name)
        i=c[0]; b=s.md[i][1]; out={}
        m=re.search(r'elements: !(\d+)',b)
        for e in s.lists.get(m.group(1),[]) if m else []:
            k,eb=s.md.get(e,('',''))
            if k!='DIDerivedType': continue
            if 'DIFlagStaticMember' in eb: continue
            off=int((re.search(r'offset: (\d+)',eb) or [0,'0'])[1]); sz=int((re.search(r'size: (\d+)',eb) or [0,'0'])[1])
            nm=re.search(r'name: "([^"]*)"',eb)
            key=nm.group(1) if nm else ('<base%d>'%off if 'DW_TAG_inheritance' in eb else '<anon%d>'%off)
            out[key]=(off,sz,'bit') if 'DIFlagBitField' in eb else (off//8,sz//8)
        m=re.search(r'size: (\d+)',b); out['']=int(m.group(1))//8 if m else None
        return out
    def flat(s,name,scope=None,start=False,depth=4):
        """nested members as dotted paths -> (offset bytes,size bytes); base classes are flattened in"""
        c=[i for n,l in s.structs.items() if (n==name or (start and n.startswith(name))) for i in l if scope is None or s.scope(i).startswith(scope)]
        if not c: raise Unsupported('layout of %s not found'%name)
        return s._flat(c[0],0,'',depth)
    def _flat(s,i,base,pre,depth):
        out={}; b=s.md[i][1]; m=re.search(r'elements: !(\d+)',b)
        for e in s.lists.get(m.group(1),[]) if m else []:
            k,eb=s.md.get(e,('',''))
            if k!='DIDerivedType' or 'DIFlagStaticMember' in eb or not re.search('DW_TAG_(member|inheritance)',eb): continue
            off=int((re.search(r'offset: (\d+)',eb) or [0,'0'])[1]); sz=int((re.search(r'size: (\d+)',eb) or [0,'0'])[1]); nm=re.search(r'name: "([^"]*)"',eb)
            inh='DW_TAG_inheritance' in eb; key=pre+(nm.group(1) if nm else ('' if inh else '<anon>'))
            if not inh: out[key]=(base+off//8,sz//8)
            t=re.search(r'baseType: !(\d+)',eb); t=t and t.group(1); n=0
            while t in s.md and s.md[t][0]=='DIDerivedType' and not re.search('DW_TAG_(pointer|reference|rvalue)',s.md[t][1]) and n<8:
                mm=re.search(r'baseType: !(\d+)',s.md[t][1]); t=mm and mm.group(1); n+=1
            if t in s.md and s.md[t][0]=='DICompositeType' and depth>0 and 'array_type' not in s.md[t][1]:
                out.update(s._flat(t,base+off//8,key+('' if inh or not key else '.'),depth-1))
        return out
class Ctx:
    """what a target sees"""
    def __init__(s,dir,tus): s.dir=dir; s.tus=tus; s._mods=None; s._lay={}; s.exs=[]; s.notes=[]; s.extra=[]
    @property
    def mods(s):
        if s._mods is None: s._mods=[Module(os.path.join(s.dir,t+'.ll')) for t in s.tus]
        return s._mods
    def layout(s,name,scope=None,start=False):
        for t in s.tus:
            if t not in s._lay: s._lay[t]=Layouts(os.path.join(s.dir,t+'.ll'))
        for t in s.tus:
            try: return s._lay[t].layout(name,scope,start)
            except Unsupported: pass
        raise Unsupported('layout of %s not found'%name)
    def flat(s,name,scope=None,start=False,depth=4):
        s_=None
        for t in s.tus:
            if t not in s._lay: s._lay[t]=Layouts(os.path.join(s.dir,t+'.ll'))
            try: return s._lay[t].flat(name,scope,start,depth)
            except Unsupported: pass
        raise Unsupported('layout of %s not found'%name)
    def ex(s,target,**kw):
        e=Executor(list(s.mods),**kw); e.target=target; s.exs.append(e); return e
    def fn(s,qual,pred=None,n=0):
        for m in s.mods:
            r=[f for f in m.find(qual,pred) if not f.isdecl]
            if r: return m.load_fn(r[n])
        raise Unsupported('function %s not found'%qual)
    def lemma(s,ex,name,goal,facts=(),schemas=(),kind='lemma'):
        st=State(); st.assume(list(facts)); st.schemas=list(schemas); ex.oblige(st,name,goal,kind)
class Result: pass
def run_target(t,dir,jobs,tier):
    R=Result(); R.name=t.name; R.group=t.group; R.props=t.props; R.err=None; R.obs=[]; R.secs=0; R.funcs=t.funcs; R.inlined=[]; R.contracts=[]; R.stubbed=[]; R.trusted=[]; R.notes=[]; R.steps=0
    t0=time.time(); c=Ctx(dir,t.tus)
    sym._cnt=sym.itertools.count()
    try:
        t.fn(c)
    except Unsupported as e: R.err='undecided: '+str(e)
    except (KeyError,IndexError,AttributeError,TypeError,z3.Z3Exception,AssertionError,ValueError,RecursionError) as e:
        R.err='undecided: engine error %r at %s'%(e,traceback.format_exc().strip().splitlines()[-3].strip())
        if os.environ.get('LLVC_DEBUG'): traceback.print_exc()
    obs=[o for e in c.exs for o in e.obligs]
    R.exec_secs=time.time()-t0
    tmo=t.timeout*(3 if tier=='thorough' else 1)
    solve.solve_all(obs,jobs,tmo,t.maxgen)
    for o in obs: R.obs.append((o.name,o.kind,o.status,o.line,o.backend,o.secs,o.model if o.status=='failed' else None,o.trace[-12:] if o.status!='proved' else None,str(o.goal)[:600] if o.status!='proved' else None,o.info))
    for e in c.exs:
        R.inlined+=sorted(e.inlined); R.contracts+=sorted(e.used_contracts); R.stubbed+=sorted(e.stubbed); R.steps+=e.steps; R.trusted+=sorted(e.trusted)
    R.notes=c.notes; R.secs=time.time()-t0
    if not obs and not R.err: R.err='undecided: no obligations generated'
    return R
def run_targets(ts,dir,tier='quick',par=8):
    """fork one worker per target, at most `par` at a time"""
    res=[]; pend=list(ts); live={}
    import select
    while pend or live:
        while pend and len(live)<par:
            t=pend.pop(0); r,w=os.pipe(); pid=os.fork()
            if pid==0:
                os.close(r)
                try:
                    jobs=3 if len(ts)>=4 else 8
                    x=run_target(t,dir,jobs,tier); 
                    with os.fdopen(w,'wb') as f: pickle.dump(x,f)
                except BaseException as e:
                    traceback.print_exc()
                finally: os._exit(0)
            os.close(w); live[r]=(pid,t,b'')
        rd,_,_=select.select(list(live),[],[])
        for fd in rd:
            pid,t,buf=live[fd]; b=os.read(fd,1<<20)
            if b: live[fd]=(pid,t,buf+b); continue
            os.close(fd); os.waitpid(pid,0); del live[fd]
            try: res.append(pickle.loads(buf))
            except Exception:
                R=Result(); R.name=t.name;R.group=t.group;R.props=t.props;R.err='undecided: worker died';R.obs=[];R.secs=0;R.funcs=t.funcs;R.inlined=[];R.contracts=[];R.stubbed=[];R.trusted=[];R.notes=[];R.steps=0;R.exec_secs=0
                res.append(R)
    return res
