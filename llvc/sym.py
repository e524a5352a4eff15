"""Symbolic executor over the LLVM IR of the real code, with function contracts, loop invariants and obligations.

Memory model
  * every alloca / C++ object under contract / array is a separate object; pointers are (object, offset)
  * 'raw' pointers are 64-bit addresses into a typed flat heap (one array per access width), used for allocator memory
  * functional arrays (FA) are read-over-write expanded, so queries contain only uninterpreted base arrays
Obligations carry their path facts; quantified facts are schemas instantiated at the index terms of the query.
"""
import z3, itertools, os, re, sys
from ir import Module
sys.setrecursionlimit(20000)
class Unsupported(Exception): pass
_cnt=itertools.count()
def fresh_name(p): return '%s!%d'%(p,next(_cnt))
def FreshBV(p,w): return z3.BitVec(fresh_name(p),w)
def FreshBool(p): return z3.Bool(fresh_name(p))
def BV(v,w=64): return z3.BitVecVal(v,w)
def isc(x): return isinstance(x,z3.BitVecNumRef)
def simp(x): return z3.simplify(x,bv_le2extract=False)
MASK=(1<<64)-1
def _same(a,b):
    if a is b: return True
    if isinstance(a,z3.ExprRef) and isinstance(b,z3.ExprRef): return a.eq(b)
    if isinstance(a,Ptr) and isinstance(b,Ptr): return a.same(b)
    if isinstance(a,(list,tuple)) and isinstance(b,(list,tuple)): return len(a)==len(b) and all(_same(x,y) for x,y in zip(a,b))
    if isinstance(a,FA) or isinstance(b,FA): return a is b
    try: return a==b
    except Exception: return False
class Ptr:
    __slots__=('obj','c','terms')
    def __init__(s,obj,c=0,terms=()): s.obj=obj; s.c=c; s.terms=terms
    def same(s,o): return s.obj==o.obj and s.c==o.c and len(s.terms)==len(o.terms) and all(st==ot and t.eq(u) for (t,st),(u,ot) in zip(s.terms,o.terms))
    def israw(s): return s.obj is None
    def isnull(s): return s.obj is None and not s.terms and s.c==0
    def add(s,k): 
        c=s.c+k
        if s.obj is None: c&=MASK
        return Ptr(s.obj,c,s.terms)
    def addterm(s,t,stride):
        if isc(t):
            k=t.as_signed_long()*stride; return s.add(k)
        if stride==0: return s
        return Ptr(s.obj,s.c,s.terms+((t,stride),))
    def off(s):
        r=BV(s.c&MASK)
        first=True
        for t,st in s.terms:
            e=t if st==1 else t*BV(st&MASK)
            r= e+r if not(isc(r) and r.as_long()==0) else e
        return r
    def __repr__(s): return 'Ptr(%s,%s,%s)'%(s.obj,s.c,s.terms)
NULL=Ptr(None,0)
def raw(addr,c=0):
    if isc(addr): return Ptr(None,(addr.as_long()+c)&MASK)
    return Ptr(None,c,((addr,1),))
class FA:
    """functional array: idx(BVn)->BVw"""
    __slots__=('k','a','w','iw')
    def __init__(s,k,a,w,iw): s.k=k; s.a=a; s.w=w; s.iw=iw
    @staticmethod
    def base(name,w,iw=64): return FA('base',z3.Array(name,z3.BitVecSort(iw),z3.BitVecSort(w)),w,iw)
    @staticmethod
    def const(data,w,iw=64): return FA('const',data,w,iw)
    def store(s,i,v): return FA('store',(s,i,v),s.w,s.iw)
    def copy(s,di,n,src,si): return FA('copy',(s,di,n,src,si),s.w,s.iw)
    def fill(s,di,n,v): return FA('fill',(s,di,n,v),s.w,s.iw)
    def fnarr(fn,w,iw=64): return FA('fn',fn,w,iw)
    def roots(s):
        if s.k=='base': return [s.a]
        if s.k=='const': return []
        if s.k=='fn': return []
        r=s.a[0].roots()
        if s.k=='copy': r=r+s.a[3].roots()
        return r
    def sel(s,i):
        if s.k=='base': return z3.Select(s.a,i)
        if s.k=='fn': return s.a(i)
        if s.k=='const':
            if isc(i):
                k=i.as_long(); return BV(s.a[k] if k<len(s.a) else 0,s.w)
            # table lookup as nested ite
            r=BV(0,s.w)
            for k,v in enumerate(s.a): r=z3.If(i==BV(k,s.iw),BV(v,s.w),r)
            return r
        if s.k=='store':
            b,j,v=s.a
            if i.eq(j): return v
            if isc(i) and isc(j): return b.sel(i) if i.as_long()!=j.as_long() else v
            d=simp(i-j)
            if isc(d): return v if d.as_long()==0 else b.sel(i)
            return z3.If(i==j,v,b.sel(i))
        if s.k=='copy':
            b,di,n,src,si=s.a
            rel=simp(i-di)
            c=simp(z3.ULT(rel,n))
            if z3.is_true(c): return src.sel(simp(rel+si))
            if z3.is_false(c): return b.sel(i)
            return z3.If(c,src.sel(simp(rel+si)),b.sel(i))
        if s.k=='fill':
            b,di,n,v=s.a
            c=simp(z3.ULT(i-di,n))
            if z3.is_true(c): return v
            if z3.is_false(c): return b.sel(i)
            return z3.If(c,v,b.sel(i))
class Struct:
    """object accessed at constant offsets"""
    __slots__=('name','cells','size','ro')
    def __init__(s,name,size=None,cells=None,ro=False): s.name=name; s.cells=cells or {}; s.size=size; s.ro=ro
    def clone(s): return Struct(s.name,s.size,dict(s.cells),s.ro)
class Arr:
    """object accessed as array of elements with fields; n: z3 BV64 number of elements or None"""
    __slots__=('name','stride','fields','n','iw','ptrf','ro')
    def __init__(s,name,stride,fields,n=None,iw=64,ptrf=(),ro=False): s.name=name;s.stride=stride;s.fields=fields;s.n=n;s.iw=iw;s.ptrf=ptrf;s.ro=ro
    def clone(s): return Arr(s.name,s.stride,dict(s.fields),s.n,s.iw,s.ptrf,s.ro)
class Schema:
    """forall vars. fn(*vars); instantiated at index terms of `trig` arrays (list of base arrays), or at given terms"""
    __slots__=('name','sorts','fn','trig','done')
    def __init__(s,name,sorts,fn,trig): s.name=name;s.sorts=sorts;s.fn=fn;s.trig=trig
class Frame:
    __slots__=('fn','blk','ix','prev','regs','call','names','visits','uid')
    def clone(s):
        f=Frame(); f.fn=s.fn;f.blk=s.blk;f.ix=s.ix;f.prev=s.prev;f.regs=dict(s.regs);f.call=s.call;f.names=dict(s.names);f.visits=dict(s.visits);f.uid=s.uid; return f
class State:
    def __init__(s): s.pc=[];s.schemas=[];s.objs={};s.heap={};s.frames=[];s.ghost={};s.loops=[];s.pending=None;s.trace=[];s.exc=None;s.caught=[]
    def fork(s):
        t=State(); t.pc=list(s.pc);t.schemas=list(s.schemas);t.objs=dict(s.objs);t.heap=dict(s.heap);t.frames=[f.clone() for f in s.frames];t.ghost=dict(s.ghost);t.loops=list(s.loops);t.pending=s.pending;t.trace=list(s.trace);t.exc=s.exc;t.caught=list(s.caught); return t
    def assume(s,f):
        if isinstance(f,Schema): s.schemas.append(f); return
        if isinstance(f,(list,tuple)):
            for g in f: s.assume(g)
            return
        if f is True: return
        if f is False: f=z3.BoolVal(False)
        f=simp(f) if z3.is_bool(f) else f
        if z3.is_true(f): return
        s.pc.append(f)
    def obj(s,oid): return s.objs[oid]
    def w(s,oid):
        o=s.objs[oid].clone(); s.objs[oid]=o; return o
class Oblig:
    __slots__=('name','kind','facts','schemas','goal','line','trace','status','model','secs','hints','backend','info')
class LoopCtx:
    def __init__(s): s.backs=[]; s.exits=[]
class LoopSpec:
    """subclass or construct with callables; inv(lv)->list of (name, formula|Schema|goalpair)"""
    def __init__(s,match,inv,variant=None,havoc_ghost=None,roles=None,name='loop',post_havoc=None): s.match=match;s.inv=inv;s.variant=variant;s.havoc_ghost=havoc_ghost;s.roles=roles or {};s.name=name;s.post_havoc=post_havoc
class Forall:
    """assertion form of a quantified formula: skolemised in goals, schema in assumptions"""
    def __init__(s,sorts,fn,trig,name='q',cases=()): s.sorts=sorts;s.fn=fn;s.trig=trig;s.name=name;s.cases=list(cases)
    def goals(s):
        """one goal per listed index, and one for every other index"""
        if not s.cases: return [('',s.goal())]
        v=z3.Const(fresh_name('sk_'+s.name),s.sorts[0])
        return [('@%d'%i,c[1] if isinstance(c,tuple) else s.fn(c)) for i,c in enumerate(s.cases)]+[('@rest',z3.Implies(z3.And([v!=(c[0] if isinstance(c,tuple) else c) for c in s.cases]),s.fn(v)))]
    def goal(s):
        vs=[z3.Const(fresh_name('sk_'+s.name),x) for x in s.sorts]
        return s.fn(*vs)
    def schema(s): return Schema(s.name,s.sorts,s.fn,s.trig)
class LV:
    """view of a state for invariants: access to locals by name"""
    def __init__(s,ex,st,frames=None,bind=None,entry=None): s.ex=ex;s.st=st;s.bind=bind or {};s.entry=entry
    def has(s,name):
        try: s.oid(name); return True
        except Unsupported: return False
    def oid(s,name):
        if name in s.bind: return s.bind[name]
        for f in reversed(s.st.frames):
            if name in f.names: return f.names[name]
            if name+'.addr' in f.names: return f.names[name+'.addr']
        raise Unsupported('local %s not found'%name)
    def local(s,name,ty=None,off=0):
        o=s.st.objs[s.oid(name)]
        c=o.cells.get(off)
        if c is None:
            raise Unsupported('local %s uninitialised'%name)
        return c[1]
def ite_b2bv(b,w): 
    if z3.is_true(b): return BV(1,w)
    if z3.is_false(b): return BV(0,w)
    return z3.If(b,BV(1,w),BV(0,w))
def bv2bool(x):
    if isc(x): return z3.BoolVal(bool(x.as_long()&1))
    if z3.is_app_of(x,z3.Z3_OP_ITE):
        c,a,b=x.children()
        if isc(a) and isc(b): 
            av,bv_=a.as_long()&1,b.as_long()&1
            if av==1 and bv_==0: return c
            if av==0 and bv_==1: return z3.Not(c)
    return simp(z3.Extract(0,0,x)==BV(1,1))
_hm={}
def has_mul(f):
    k=f.get_id()
    if k in _hm: return _hm[k][0]
    seen=set(); st=[f]; r=False
    while st:
        t=st.pop(); i=t.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(t):
            if t.decl().kind()==z3.Z3_OP_BMUL: r=True; break
            st.extend(t.children())
    _hm[k]=(r,f); return r
class Executor:
    def __init__(self,mods,contracts=None,stubs=None,loops=None,group='',unroll=70,maxstates=4000):
        self.mods=mods if isinstance(mods,list) else [mods]
        self.contracts=contracts or {}; self.stubs=stubs or []; self.loopspecs=loops or []
        self.obligs=[]; self.group=group; self.target=''; self.unroll=unroll; self.maxstates=maxstates
        self._stubcache={}; self.types={}; self.feas_ms=1500; self.nfeas=0; self.check_shift=True
        self.globals_init=None; self.arr_hook=None; self.raw_store_hook=None; self.raw_load_hook=None; self.used_contracts=set(); self.inlined=set(); self.stubbed=set(); self.covered=set(); self.steps=0
        self.trusted=set(); self._feascache={}; self.term_hook=None; self.raw_base=False
        self.div_fresh=False; self.ub={}; self.divmemo={}; self.keepub=[]; self.subst=[]
    # ---- functions
    def getfn(self,name):
        for m in self.mods:
            n=m.alias.get(name,name)
            f=m.fns.get(n)
            if f is not None and not f.isdecl: return m.load_fn(f)
        for m in self.mods:
            if name in m.fns: return m.fns[name]
        return None
    def find(self,qual,pred=None):
        for m in self.mods:
            r=m.find(qual,pred)
            if r: return [m.load_fn(f) for f in r]
        return []
    # ---- obligations
    def oblige(self,st,name,goal,kind='post',line=0,hints=()):
        if isinstance(goal,Forall):
            if goal.cases:
                for n,g in goal.goals(): self.oblige(st,name+n,g,kind,line,hints)
                return
            goal=goal.goal()
        if isinstance(goal,(list,tuple)) and goal and isinstance(goal[0],tuple):
            for n,g in goal: self.oblige(st,name+'.'+n,g,kind,line,hints)
            return
        if goal is True: goal=z3.BoolVal(True)
        if goal is False: goal=z3.BoolVal(False)
        o=Oblig(); o.name='%s/%s'%(self.target,name); o.kind=kind; o.facts=list(st.pc); o.schemas=list(st.schemas); o.goal=goal; o.line=line; o.trace=st.trace[-40:]; o.status=None; o.model=None;o.secs=0;o.hints=list(hints);o.backend='';o.info=None
        g=simp(goal)
        if z3.is_true(g): o.status='proved'; o.backend='simplifier'
        self.obligs.append(o)
    def cut(self,st,name,f):
        """intermediate step: prove f here, then use it"""
        self.oblige(st,name,f,'cut'); st.assume(f.schema() if isinstance(f,Forall) else f)
    # ---- solving helpers
    def feasible(self,st,extra):
        extra=simp(extra)
        if z3.is_true(extra): return True
        if z3.is_false(extra): return False
        self.nfeas+=1
        s=z3.Solver(); s.set('timeout',self.feas_ms)
        for f in st.pc:
            if self.div_fresh and has_mul(f): continue     # over-approximation: pruning only
            s.add(f)
        s.add(extra)
        r=s.check()
        return r!=z3.unsat
    # ---- objects
    def new_struct(self,st,name,size=None,cells=None):
        oid=fresh_name(name); st.objs[oid]=Struct(oid,size,cells); return Ptr(oid)
    def new_arr(self,st,name,stride,fields,n=None,iw=64,ptrf=()):
        oid=fresh_name(name); st.objs[oid]=Arr(oid,stride,fields,n,iw,ptrf); return Ptr(oid)
    def new_bytes(self,st,name,n=None):
        oid=fresh_name(name); st.objs[oid]=Arr(oid,1,{0:FA.base(oid+'.b',8)},n); return Ptr(oid)
    def base_addr(self,oid): return z3.BitVec('&'+str(oid),64)
    def ptr2int(self,p):
        if p.obj is None: return p.off()
        return self.base_addr(p.obj)+p.off()
    def arr_index(self,st,o,p,size,line,what):
        """decompose pointer into (element index BV iw, field offset)"""
        s=o.stride
        c=p.c
        fo=c% s
        idx=BV((c//s)&MASK)
        for t,ts in p.terms:
            if ts% s: 
                if s==1: idx=idx+t*BV(ts&MASK); continue
                raise Unsupported('stride mismatch %s %s'%(ts,s))
            k=ts//s; e=t if k==1 else t*BV(k&MASK)
            idx=e if isc(idx) and idx.as_long()==0 else e+idx
        idx=simp(idx)
        if o.n is not None:
            cnt=1 if s>1 else size
            g=z3.ULT(idx,o.n) if cnt==1 else z3.And(z3.ULE(BV(cnt),o.n),z3.ULE(idx,o.n-BV(cnt)))
            self.oblige(st,'bounds:%s'%what,g,'memsafe',line)
        if o.iw!=64: idx=simp(z3.Extract(o.iw-1,0,idx))
        return idx,fo
    def load(self,st,p,T,line=0):
        if T[0]=='struct': return [self.load(st,p.add(off),t,line) for off,t in T[1]]
        if T[0]=='array': return [self.load(st,p.add(i*T[3]),T[2],line) for i in range(T[1])]
        size=self.mods[0].size(T)
        if p.obj is None: return self.load_raw(st,p,T,size,line)
        if isinstance(p.obj,tuple): raise Unsupported('load from function')
        o=st.objs.get(p.obj)
        if o is None:
            self.oblige(st,'use of released object',False,'memsafe',line); raise Unsupported('load from dead object %s'%p.obj)
        if isinstance(o,Arr):
            idx,fo=self.arr_index(st,o,p,size,line,'load')
            if o.stride==1 and size>1 and list(o.fields)==[0]:
                bs=[o.fields[0].sel(simp(idx+BV(k,o.iw))) for k in range(size)]
                v=z3.Concat(*reversed(bs)); return self.coerce(v,T)
            fa=o.fields.get(fo)
            if fa is None: raise Unsupported('field %d of %s'%(fo,o.name))
            if fa.w!=size*8: raise Unsupported('field width %d/%d'%(fa.w,size*8))
            v=fa.sel(idx)
            return self.coerce(v,T)
        if p.terms:
            # symbolic offset into a struct object: resolve if the offset is determined
            r=self.resolve_const(st,p)
            if r is None: raise Unsupported('symbolic offset into %s'%o.name)
            p=r
        return self.load_cell(st,o,p,T,size,line)
    def resolve_const(self,st,p):
        e=simp(p.off())
        if isc(e): return Ptr(p.obj,e.as_signed_long())
        # unique value under the path condition? (weaker fact sets first: uniqueness under fewer facts implies uniqueness)
        for flt in (True,False):
            fs=[f for f in st.pc if not(flt and has_mul(f))]
            if not flt and (self.div_fresh or len(fs)==len([f for f in st.pc if not has_mul(f)])): break
            s=z3.Solver(); s.set('timeout',2000); s.add(*fs)
            if s.check()!=z3.sat: continue
            v=s.model().eval(e,model_completion=True)
            s.add(e!=v)
            if s.check()==z3.unsat: return Ptr(p.obj,v.as_signed_long())
        return None
    def load_cell(self,st,o,p,T,size,line):
        if o.size is not None and not(0<=p.c and p.c+size<=o.size):
            self.oblige(st,'bounds:load',False,'memsafe',line); raise Unsupported('oob load %s+%d'%(o.name,p.c))
        c=o.cells.get(p.c)
        if c is not None and c[0]==size: return self.coerce(c[1],T)
        # overlap handling
        ov=[(k,v) for k,v in o.cells.items() if k<p.c+size and p.c<k+v[0]]
        if not ov:
            v=self.lazy(o.name,p.c,T); o2=st.w(p.obj) ; o2.cells[p.c]=(size,v); return v
        # compose bytes
        bs=[]
        for b in range(p.c,p.c+size):
            for k,(sz,v) in ov:
                if k<=b<k+sz:
                    x=self.as_bv(v,sz*8); bs.append(z3.Extract((b-k)*8+7,(b-k)*8,x)); break
            else:
                nm='%s+%d:b'%(o.name,b); bs.append(z3.BitVec(nm,8))
        v=simp(z3.Concat(*reversed(bs))) if len(bs)>1 else simp(bs[0])
        return self.coerce(v,T)
    def lazy(self,name,off,T):
        nm='%s+%d'%(name,off)
        if T[0]=='int': return z3.Bool(nm) if T[1]==1 else z3.BitVec(nm,T[1])
        if T[0]=='ptr': return raw(z3.BitVec(nm,64))
        if T[0]=='fp': return ('fp',nm)
        raise Unsupported('lazy %r'%(T,))
    def as_bv(self,v,w):
        if isinstance(v,Ptr): return self.ptr2int(v)
        if isinstance(v,z3.BoolRef): return ite_b2bv(v,w)
        return v
    def coerce(self,v,T):
        if T[0]=='ptr':
            if isinstance(v,Ptr): return v
            if isinstance(v,z3.BitVecRef): return self.int2ptr(v)
        if T[0]=='int':
            if isinstance(v,Ptr):
                return self.ptr2int(v)
            if T[1]==1 and isinstance(v,z3.BitVecRef): return bv2bool(v)
            if isinstance(v,z3.BitVecRef) and v.size()!=T[1]: return z3.Extract(T[1]-1,0,v)
        return v
    def int2ptr(self,v):
        v=simp(v)
        # recognise &obj + const
        if isc(v): return Ptr(None,v.as_long())
        def base_of(e):
            if z3.is_const(e) and e.decl().name().startswith('&'): return e.decl().name()[1:]
            return None
        b=base_of(v)
        if b: return Ptr(b,0)
        if z3.is_app_of(v,z3.Z3_OP_BADD):
            parts=v.children(); bs=[x for x in parts if base_of(x)]
            if len(bs)==1:
                r=Ptr(base_of(bs[0]))
                for x in parts:
                    if x is bs[0]: continue
                    r=r.add(x.as_signed_long()) if isc(x) else r.addterm(x,1)
                return r
        return raw(v)
    def store(self,st,p,v,T,line=0):
        if T[0]=='struct':
            for (off,t),x in zip(T[1],v): self.store(st,p.add(off),x,t,line)
            return
        if T[0]=='array':
            for i,x in enumerate(v): self.store(st,p.add(i*T[3]),x,T[2],line)
            return
        size=self.mods[0].size(T)
        if isinstance(v,z3.BoolRef) and T[0]=='int' and T[1]>1: v=ite_b2bv(v,T[1])
        if p.obj is None: return self.store_raw(st,p,v,T,size,line)
        if p.obj not in st.objs: self.oblige(st,'use of released object',False,'memsafe',line); raise Unsupported('store to dead object %s'%(p.obj,))
        o=st.objs[p.obj]
        if getattr(o,'ro',False): self.oblige(st,'frame:%s'%o.name,False,'frame',line)
        if isinstance(o,Arr):
            idx,fo=self.arr_index(st,o,p,size,line,'store')
            if self.arr_hook: self.arr_hook(self,st,p.obj,fo,idx,v)
            o=st.w(p.obj)
            if o.stride==1 and list(o.fields)==[0]:
                x=self.as_bv(v,size*8); fa=o.fields[0]
                for k in range(size): fa=fa.store(simp(idx+BV(k,o.iw)),simp(z3.Extract(k*8+7,k*8,x)) if size>1 else x)
                o.fields[0]=fa; return
            fa=o.fields.get(fo)
            if fa is None or fa.w!=size*8: raise Unsupported('store field %d of %s'%(fo,o.name))
            o.fields[fo]=fa.store(idx,self.as_bv(v,size*8)); return
        if p.terms:
            r=self.resolve_const(st,p)
            if r is None: raise Unsupported('symbolic store offset into %s'%o.name)
            p=r
        if o.size is not None and not(0<=p.c and p.c+size<=o.size):
            self.oblige(st,'bounds:store',False,'memsafe',line); raise Unsupported('oob store %s+%d'%(o.name,p.c))
        o=st.w(p.obj)
        self.put_cell(o,p.c,size,v)
    def put_cell(self,o,off,size,v):
        c=o.cells.get(off)
        if c is None or c[0]!=size:
            for k,(sz,x) in list(o.cells.items()):
                if k<off+size and off<k+sz and not(k==off and sz==size):
                    del o.cells[k]
                    if isinstance(x,tuple): continue
                    xb=self.as_bv(x,sz*8)
                    for b in range(k,k+sz):
                        if not(off<=b<off+size): o.cells[b]=(1,simp(z3.Extract((b-k)*8+7,(b-k)*8,xb)))
        o.cells[off]=(size,v)
    def load_raw(self,st,p,T,size,line):
        if p.isnull() : 
            self.oblige(st,'null-deref',False,'memsafe',line); raise Unsupported('null load')
        w=size*8
        if w not in st.heap: raise Unsupported('raw load width %d (%s)'%(w,p))
        a=simp(p.off())
        if self.raw_load_hook: self.raw_load_hook(self,st,w,a,line)
        v=st.heap[w].sel(a)
        return self.coerce(v,T)
    def store_raw(self,st,p,v,T,size,line):
        if p.isnull():
            self.oblige(st,'null-deref',False,'memsafe',line); raise Unsupported('null store')
        w=size*8
        if w not in st.heap: raise Unsupported('raw store width %d'%w)
        a=simp(p.off()); x=self.as_bv(v,w)
        if isinstance(x,z3.BoolRef): x=ite_b2bv(x,w)
        x=simp(x)
        if self.raw_store_hook: self.raw_store_hook(self,st,w,a,x,line)
        st.heap[w]=st.heap[w].store(a,x)
    # ---- operands
    def op(self,st,o,fr=None):
        fr=fr or st.frames[-1]
        k=o[0]
        if k=='r':
            try: return fr.regs[o[1]]
            except KeyError: raise Unsupported('undefined register')
        if k=='i':
            if o[1]==1: return z3.BoolVal(bool(o[2]))
            return BV(o[2],o[1])
        if k=='null': return NULL
        if k=='f': return Ptr(('fn',o[1]))
        if k=='g': return self.global_ptr(st,o[1])
        if k=='undef' : return self.undef(o[1])
        if k=='zero': return self.zero(o[1])
        if k=='agg': return [self.op(st,x,fr) for x in o[2]]
        if k=='str': return [BV(b,8) for b in o[2]]
        if k=='ce':
            if o[1]=='gep': return self.gep(st,o[2],[self.op(st,x,fr) for x in o[3]])
            if o[1]=='ptrtoint': return self.ptr2int(self.op(st,o[3][0],fr))
            if o[1]=='inttoptr': return self.int2ptr(self.op(st,o[3][0],fr))
        if k=='fpc': return ('fp','c')
        raise Unsupported('operand %r'%(o[:2],))
    def undef(self,T):
        if T[0]=='int': return FreshBool('undef') if T[1]==1 else FreshBV('undef',T[1])
        if T[0]=='ptr': return raw(FreshBV('undefp',64))
        if T[0]=='struct': return [self.undef(t) for _,t in T[1]]
        if T[0]=='array': return [self.undef(T[2]) for _ in range(T[1])]
        raise Unsupported('undef %r'%(T,))
    def zero(self,T):
        if T[0]=='int': return z3.BoolVal(False) if T[1]==1 else BV(0,T[1])
        if T[0]=='ptr': return NULL
        if T[0]=='struct': return [self.zero(t) for _,t in T[1]]
        if T[0]=='array': return [self.zero(T[2]) for _ in range(T[1])]
        raise Unsupported('zero %r'%(T,))
    def global_ptr(self,st,name):
        oid='@'+name
        if oid not in st.objs:
            import ir
            for m in self.mods:
                if name in m.globals and ir.GetInit(m.globals[name]): break
            else:
                st.objs[oid]=Struct(oid); return Ptr(oid)
            g=m.globals[name]; init=m.val(ir.GetInit(g),{}); T=m.ty(ir.GlobalValTy(g)); const=bool(ir.IsGlConst(g))
            if const and T[0]=='array' and T[2]==('int',8) and init[0]=='str':
                st.objs[oid]=Arr(oid,1,{0:FA.const(list(init[2]),8)},BV(len(init[2])),ro=True)
            elif const and T[0]=='array' and T[2]==('int',8):
                st.objs[oid]=Arr(oid,1,{0:FA.const([0]*T[1],8)},BV(T[1]),ro=True)
            elif const and T[0]=='array' and T[2][0]=='struct' and init[0]=='agg' and all(t[0]=='ptr' for _,t in T[2][1]) and T[1]<=32:
                # table of slices: keep as struct cells (constant index) -- symbolic index resolved by forking
                o=Struct(oid,m.size(T)); st.objs[oid]=o; self.init_cells(st,oid,0,T,init); st.objs[oid].ro=True
            else:
                st.objs[oid]=Struct(oid,m.size(T))
                if const: self.init_cells(st,oid,0,T,init); st.objs[oid].ro=True
                elif self.globals_init and self.globals_init(self,st,name,oid,T,init,m): pass
        return Ptr(oid)
    def init_cells(self,st,oid,off,T,init):
        fr=Frame(); fr.regs={}
        v=self.op(st,init,fr); 
        o=st.w(oid); ro=o.ro; o.ro=False; self.store(st,Ptr(oid,off),v,T); st.objs[oid].ro=ro
    def gep(self,st,T,vals):
        p=vals[0]
        if not isinstance(p,Ptr): raise Unsupported('gep on non-pointer')
        sz=self.mods[0].size
        first=True; cur=T
        for v in vals[1:]:
            if first:
                s=sz(T); first=False
            elif cur[0]=='struct':
                k=v.as_long(); p=p.add(cur[1][k][0]); cur=cur[1][k][1]; continue
            elif cur[0]=='array': s=cur[3]; cur=cur[2]
            else: raise Unsupported('gep type')
            if v.size()<64: v=simp(z3.SignExt(64-v.size(),v))
            if isc(v): p=p.add(v.as_signed_long()*s)
            else:
                v=simp(v)
                p=p.add(v.as_signed_long()*s) if isc(v) else self.norm(p.addterm(v,s))
        return p
    def norm(self,p):
        # merge terms of equal stride, cancel
        if len(p.terms)<2: return p
        by={}
        for t,s in p.terms: by.setdefault(s,[]).append(t)
        out=[];c=p.c
        for s,l in by.items():
            e=l[0]
            for x in l[1:]: e=e+x
            e=simp(e)
            if isc(e): c+=e.as_signed_long()*s
            else: out.append((e,s))
        return Ptr(p.obj,c,tuple(out))
    # ---- main loop
    def start(self,st,fn,args):
        self.target_fn=fn
        self.push(st,fn,args,None)
        return self.explore([st])
    def push(self,st,fn,args,call):
        self.mods[0] ; fn.mod.load_fn(fn)
        f=Frame(); f.fn=fn; f.blk=0; f.ix=0; f.prev=None; f.regs={}; f.call=call; f.names={}; f.visits={}; f.uid=next(_cnt)
        for (rid,T),a in zip(fn.args,args): f.regs[rid]=a
        if len(st.frames)>60: raise Unsupported('call depth')
        st.frames.append(f)
    def explore(self,work):
        """run states to completion; returns list of ('ret',st,val)|('throw',st,exc)"""
        done=[]; work=list(work); n=0
        while work:
            st=work.pop(); n+=1
            if n>self.maxstates: raise Unsupported('state limit')
            r=self.run(st,done)
            work.extend(r)
        return done
    def run(self,st,done):
        """execute until fork/termination; returns successor states"""
        while True:
            if st.pending is not None:
                kind,val=st.pending; st.pending=None
                if kind=='ret': r=self.do_ret(st,val,done)
                else: r=self.unwind(st,val,done)
                if r is None: return []
                continue
            fr=st.frames[-1]
            I=fr.fn.blocks[fr.blk].insts[fr.ix]
            self.steps+=1
            op=I.op
            h=getattr(self,'i_'+op,None)
            if h is None: raise Unsupported('instruction %s'%op)
            if I.line: st.trace.append((fr.fn.qual.split('::')[-1],I.line)) if (not st.trace or st.trace[-1][1]!=I.line) else None
            r=h(st,fr,I,done)
            if r is None: continue          # keep going in same state
            return r
    def setreg(self,fr,I,v): fr.regs[I.id]=v; fr.ix+=1
    # each handler: returns None to continue, or list of states
    def i_alloca(self,st,fr,I,done):
        n=self.op(st,I.ops[0]); T=I.x; sz=self.mods[0].size(T)
        oid=fresh_name('%s'%(I.name or 'tmp'))
        if T[0]=='array' and T[2]==('int',8) and T[1]>=8: st.objs[oid]=Arr(oid,1,{0:FA.base(oid+'.b',8)},BV(sz))
        else: st.objs[oid]=Struct(oid,sz*n.as_long())
        if I.name: fr.names[I.name]=oid
        self.setreg(fr,I,Ptr(oid))
    def i_load(self,st,fr,I,done):
        p=self.op(st,I.ops[0])
        if not isinstance(p,Ptr): raise Unsupported('load non-ptr')
        sp=self.split_ptr(st,p,I)
        if sp: return sp
        self.setreg(fr,I,self.load(st,p,I.ty,I.line))
    def split_ptr(self,st,p,I):
        """symbolic small-range offset into a Struct object: case split"""
        if p.obj is None or isinstance(p.obj,tuple) or not p.terms: return None
        o=st.objs.get(p.obj)
        if not isinstance(o,Struct): return None
        e=simp(p.off())
        if isc(e): return None
        if o.size is None or o.size>4096: return None
        s=z3.Solver(); s.set('timeout',3000); s.add(*st.pc); vals=[]
        while len(vals)<=40:
            if s.check()!=z3.sat: break
            v=s.model().eval(e,model_completion=True); vals.append(v); s.add(e!=v)
        if len(vals)==1 or len(vals)>40 or not vals: return None
        out=[]
        for v in vals:
            t=st.fork(); t.assume(e==v); out.append(t)
        return out
    def i_store(self,st,fr,I,done):
        v=self.op(st,I.ops[0]); p=self.op(st,I.ops[1])
        sp=self.split_ptr(st,p,I)
        if sp: return sp
        self.store(st,p,v,I.x,I.line); fr.ix+=1
    def i_gep(self,st,fr,I,done):
        self.setreg(fr,I,self.gep(st,I.x,[self.op(st,o) for o in I.ops]))
    def _bin(self,st,I,a,b):
        op=I.op
        if isinstance(a,Ptr): a=self.ptr2int(a)
        if isinstance(b,Ptr): b=self.ptr2int(b)
        if isinstance(a,z3.BoolRef):
            if op=='and': return z3.And(a,b)
            if op=='or': return z3.Or(a,b)
            if op=='xor': return z3.Xor(a,b) if not z3.is_true(b) else z3.Not(a)
            if op in('add','sub'): return z3.Xor(a,b)
            raise Unsupported('i1 %s'%op)
        if not isinstance(a,z3.BitVecRef) or not isinstance(b,z3.BitVecRef): raise Unsupported('bin on %r'%type(a))
        w=a.size()
        if op=='add': r=a+b
        elif op=='sub': r=simp(a-b)
        elif op=='mul': r=a*b
        elif op=='udiv': r=self.div_const(st,a,b)[0] if self.div_fresh and isc(b) and not isc(a) and w==64 and b.as_long()&(b.as_long()-1) else z3.UDiv(a,b)
        elif op=='urem' and self.div_fresh and isc(b) and not isc(a) and w==64 and b.as_long()&(b.as_long()-1): r=self.div_const(st,a,b)[1]
        elif op=='sdiv': r=a/b
        elif op=='urem': r=z3.URem(a,b)
        elif op=='srem': r=z3.SRem(a,b)
        elif op=='and': r=a&b
        elif op=='or': r=a|b
        elif op=='xor': r=a^b
        elif op in('shl','lshr','ashr'):
            if self.check_shift and not isc(b): self.oblige(st,'shift-range',z3.ULT(b,BV(w,w)),'ub',I.line)
            r=a<<b if op=='shl' else (z3.LShR(a,b) if op=='lshr' else a>>b)
        if op in('udiv','sdiv','urem','srem') and not isc(b): self.oblige(st,'div-by-zero',b!=0,'ub',I.line)
        if isc(a) and isc(b): r=simp(r)
        return r
    def ubound(self,a):
        if isc(a): return a.as_long()
        if a.get_id() in self.ub: return self.ub[a.get_id()]
        w=a.size()
        if z3.is_app_of(a,z3.Z3_OP_CONCAT) and isc(a.arg(0)) and a.arg(0).as_long()==0: return (1<<sum(a.arg(k).size() for k in range(1,a.num_args())))-1
        if z3.is_app_of(a,z3.Z3_OP_ZERO_EXT): return (1<<a.arg(0).size())-1
        return (1<<w)-1
    def div_const(self,st,a,b):
        """quotient/remainder by a constant as fresh variables: a == q*c + r, r < c, no overflow (definitional)"""
        a=simp(a); c=b.as_long(); key=(a.get_id(),c)
        if key not in self.divmemo:
            q=FreshBV('quo',64); r=FreshBV('rem',64); u=self.ubound(a); self.ub[q.get_id()]=u//c; self.ub[r.get_id()]=c-1; self.keepub+= [a,q,r]
            self.divmemo[key]=(q,r)
        q,r=self.divmemo[key]
        if z3.is_const(a): st.ghost['subst']=st.ghost.get('subst',())+((a,q*b+r),)
        st.assume(a==q*b+r); st.assume(z3.ULT(r,b)); st.assume(z3.ULE(q,BV(self.ub[q.get_id()])))
        return q,r
    def i_bin(self,st,fr,I,done):
        a=self.op(st,I.ops[0]); b=self.op(st,I.ops[1])
        if isinstance(a,tuple) or isinstance(b,tuple): self.setreg(fr,I,('fp','?')); return
        self.setreg(fr,I,self._bin(st,I,a,b))
    i_add=i_sub=i_mul=i_udiv=i_sdiv=i_urem=i_srem=i_and=i_or=i_xor=i_shl=i_lshr=i_ashr=i_bin
    def cmp(self,pred,a,b):
        if isinstance(a,Ptr) or isinstance(b,Ptr): return self.cmp_ptr(pred,a,b)
        if isinstance(a,z3.BoolRef):
            if pred=='eq': return a==b
            if pred=='ne': return z3.Xor(a,b)
            raise Unsupported('i1 cmp')
        return {'eq':lambda:a==b,'ne':lambda:a!=b,'ugt':lambda:z3.UGT(a,b),'uge':lambda:z3.UGE(a,b),'ult':lambda:z3.ULT(a,b),'ule':lambda:z3.ULE(a,b),'sgt':lambda:a>b,'sge':lambda:a>=b,'slt':lambda:a<b,'sle':lambda:a<=b}[pred]()
    def cmp_ptr(self,pred,a,b):
        if not isinstance(a,Ptr): a=self.int2ptr(a)
        if not isinstance(b,Ptr): b=self.int2ptr(b)
        if isinstance(a.obj,tuple) or isinstance(b.obj,tuple):
            eq=(a.obj==b.obj)
            return z3.BoolVal(eq if pred=='eq' else not eq)
        if a.obj==b.obj:
            x,y=a.off(),b.off()
            d=simp(x-y)
            if isc(d) and d.as_long()==0: return z3.BoolVal(pred in('eq','uge','ule'))
            return self.cmp(pred,x,y)
        if pred in('eq','ne') and a.obj is not None and b.obj is not None: return z3.BoolVal(pred=='ne')
        if pred in('eq','ne') and (a.isnull() or b.isnull()): return z3.BoolVal(pred=='ne')
        if pred in('eq','ne'):
            return self.cmp(pred,self.ptr2int(a),self.ptr2int(b))
        # ordering of unrelated objects: addresses
        return self.cmp(pred,self.ptr2int(a),self.ptr2int(b))
    def i_icmp(self,st,fr,I,done):
        a=self.op(st,I.ops[0]); b=self.op(st,I.ops[1])
        self.setreg(fr,I,simp(self.cmp(I.x,a,b)))
    def i_fcmp(self,st,fr,I,done): self.setreg(fr,I,FreshBool('fcmp'))
    def i_trunc(self,st,fr,I,done):
        a=self.op(st,I.ops[0]); w=I.ty[1]
        self.setreg(fr,I,bv2bool(a) if w==1 else simp(z3.Extract(w-1,0,a)))
    def i_zext(self,st,fr,I,done):
        a=self.op(st,I.ops[0]); w=I.ty[1]
        if self.ub and w==64 and z3.is_app_of(a,z3.Z3_OP_EXTRACT) and a.params()[1]==0 and a.arg(0).size()==64 and self.ubound(a.arg(0))<(1<<a.size()):
            self.setreg(fr,I,a.arg(0)); return
        self.setreg(fr,I,ite_b2bv(a,w) if isinstance(a,z3.BoolRef) else simp(z3.ZeroExt(w-a.size(),a)))
    def i_sext(self,st,fr,I,done):
        a=self.op(st,I.ops[0]); w=I.ty[1]
        self.setreg(fr,I,z3.If(a,BV((1<<w)-1,w),BV(0,w)) if isinstance(a,z3.BoolRef) else simp(z3.SignExt(w-a.size(),a)))
    def i_fpx(self,st,fr,I,done):
        T=I.ty
        self.setreg(fr,I,FreshBV('fp2i',T[1]) if T[0]=='int' else ('fp','?'))
    i_uitofp=i_sitofp=i_fptoui=i_fptosi=i_fadd=i_fsub=i_fmul=i_fdiv=i_fneg=i_fpext=i_fptrunc=i_fpx
    def i_ptrtoint(self,st,fr,I,done):
        p=self.op(st,I.ops[0]); w=I.ty[1]; v=simp(self.ptr2int(p))
        self.setreg(fr,I,v if w==64 else simp(z3.Extract(w-1,0,v)))
    def i_inttoptr(self,st,fr,I,done): self.setreg(fr,I,self.int2ptr(self.op(st,I.ops[0])))
    def i_bitcast(self,st,fr,I,done): self.setreg(fr,I,self.op(st,I.ops[0]))
    i_freeze=i_bitcast
    def i_select(self,st,fr,I,done):
        c=simp(self.op(st,I.ops[0])); a=self.op(st,I.ops[1]); b=self.op(st,I.ops[2])
        if z3.is_true(c): self.setreg(fr,I,a); return
        if z3.is_false(c): self.setreg(fr,I,b); return
        if isinstance(a,z3.ExprRef) and isinstance(b,z3.ExprRef): self.setreg(fr,I,z3.If(c,a,b)); return
        t=st.fork(); st.assume(c); t.assume(z3.Not(c))
        fr.regs[I.id]=a; fr.ix+=1; t.frames[-1].regs[I.id]=b; t.frames[-1].ix+=1
        return [x for x in(st,t) if self.feasible(x,z3.BoolVal(True)) or True]
    def i_extractvalue(self,st,fr,I,done):
        v=self.op(st,I.ops[0])
        for k in I.x: v=v[k]
        self.setreg(fr,I,v)
    def i_insertvalue(self,st,fr,I,done):
        v=self.op(st,I.ops[0]); x=self.op(st,I.ops[1])
        def ins(v,ix):
            v=list(v)
            v[ix[0]]=x if len(ix)==1 else ins(v[ix[0]],ix[1:]); return v
        self.setreg(fr,I,ins(v,I.x))
    def i_phi(self,st,fr,I,done):
        # evaluate all phis of the block simultaneously
        blk=fr.fn.blocks[fr.blk]; vals=[]; k=fr.ix
        while blk.insts[k].op=='phi':
            P_=blk.insts[k]
            for v,b in P_.x:
                if b==fr.prev: vals.append((P_.id,self.op(st,v))); break
            else: raise Unsupported('phi')
            k+=1
        for i,v in vals: fr.regs[i]=v
        fr.ix=k
    def i_br(self,st,fr,I,done):
        if not I.ops: return self.goto(st,I.x[0],done)
        c=simp(self.op(st,I.ops[0]))
        # LLVM-C lists successors in order: [true,false]
        return self.branch(st,[(c,I.x[0]),(simp(z3.Not(c)),I.x[1])],done)
    def branch(self,st,alts,done):
        if len(alts)==2:
            if z3.is_true(alts[0][0]): return self.goto(st,alts[0][1],done)
            if z3.is_true(alts[1][0]): return self.goto(st,alts[1][1],done)
        feas=[(c,t) for c,t in alts if self.feasible(st,c)]
        if len(feas)==1:
            st.assume(feas[0][0]); return self.goto(st,feas[0][1],done)
        out=[]
        for c,t in feas:
            s=st.fork(); s.assume(c); r=self.goto(s,t,done)
            out.extend([s] if r is None else r)
        return out
    def i_switch(self,st,fr,I,done):
        v=self.op(st,I.ops[0]); d,cases=I.x; alts=[]; bytgt={}
        for cv,t in cases: bytgt.setdefault(t,[]).append(simp(v==self.op(st,cv)))
        for t,cs in bytgt.items(): alts.append((simp(z3.Or(*cs)) if len(cs)>1 else cs[0],t))
        alts.append((simp(z3.And(*[z3.Not(c) for cs in bytgt.values() for c in cs])),d))
        for c,t in alts:
            if z3.is_true(c): return self.goto(st,t,done)
        return self.branch(st,alts,done)
    def i_unreachable(self,st,fr,I,done):
        self.oblige(st,'unreachable',False,'ub',I.line); return []
    def goto(self,st,target,done):
        fr=st.frames[-1]; depth=len(st.frames)
        # leaving / continuing active loops of this frame
        while st.loops and st.loops[-1][0]==depth:
            d,header,body,ctx=st.loops[-1]
            if target==header:
                fr.prev=fr.blk; fr.blk=target; fr.ix=0
                ctx.backs.append(st); return []
            if target not in body:
                st.loops.pop(); fr.prev=fr.blk; fr.blk=target; fr.ix=0
                # may also leave outer loops of the same frame: re-dispatched when resumed
                st.pending=None; ctx.exits.append((st,('goto',target))); return []
            break
        prev=fr.blk
        fr.prev=prev; fr.blk=target; fr.ix=0
        if target in fr.fn.loops:
            body=fr.fn.loops[target]
            entering = prev not in body
            spec=self.match_loop(st,fr,target)
            if spec is not None and (entering or not any(l[0]==depth and l[1]==target for l in st.loops)):
                return self.handle_loop(st,target,body,spec,done)
            if entering: fr.visits[target]=0
            fr.visits[target]=fr.visits.get(target,0)+1
            if fr.visits[target]>self.unroll: raise Unsupported('loop without invariant exceeds unroll limit in %s'%fr.fn.qual)
        return None
    def match_loop(self,st,fr,header):
        for sp in self.loopspecs:
            if sp.match(self,st,fr,header): return sp
        return None
    def snapshot_vals(self,st): return (dict(st.objs),dict(st.heap),dict(st.ghost))
    def diff(self,S,B):
        W={}
        for oid,o in S.objs.items():
            p=B.objs.get(oid)
            if p is None or p is o: continue
            if isinstance(o,Struct):
                for k,(sz,v) in p.cells.items():
                    c=o.cells.get(k)
                    if c is None:
                        # lazily materialised or genuinely written?
                        nm='%s+%d'%(o.name,k)
                        if isinstance(v,z3.ExprRef) and z3.is_const(v) and v.decl().name()==nm: continue
                        if isinstance(v,Ptr) and v.obj is None and len(v.terms)==1 and v.c==0 and z3.is_const(v.terms[0][0]) and v.terms[0][0].decl().name()==nm: continue
                        W[('c',oid,k)]=(sz,v); continue
                    if not _same(c[1],v): W[('c',oid,k)]=(sz,v)
                for k,(sz,v) in o.cells.items():
                    if k not in p.cells: W[('c',oid,k)]=(sz,v)
            else:
                for k,fa in p.fields.items():
                    if fa is not o.fields[k]: W[('f',oid,k)]=fa
        for w,fa in B.heap.items():
            if fa is not S.heap[w]: W[('h',w)]=fa
        for g,v in B.ghost.items():
            if g not in S.ghost or not _same(S.ghost[g],v): W[('g',g)]=v
        return W
    def havoc_val(self,v,nm):
        if isinstance(v,z3.BoolRef): return FreshBool(nm)
        if isinstance(v,z3.BitVecRef): return FreshBV(nm,v.size())
        if isinstance(v,Ptr):
            if v.obj is None: return raw(FreshBV(nm,64))
            st_=None
            o=self._hv_state.objs.get(v.obj)
            stride=o.stride if isinstance(o,Arr) else 1
            return Ptr(v.obj,v.c%stride if stride>1 else 0,((FreshBV(nm,64),stride),))
        if isinstance(v,tuple): return v
        raise Unsupported('havoc %r'%(v,))
    def havoc(self,S,W):
        self._hv_state=S
        for loc,v in W.items():
            if loc[0]=='c':
                o=S.w(loc[1]); sz,val=v
                nm='hv_'+re.sub(r'!.*','',str(loc[1]))
                for k,(s2,_) in list(o.cells.items()):
                    if k<loc[2]+sz and loc[2]<k+s2: del o.cells[k]
                o.cells[loc[2]]=(sz,self.havoc_val(val,nm))
            elif loc[0]=='f':
                o=S.w(loc[1]); fa=o.fields[loc[2]]; o.fields[loc[2]]=FA.base(fresh_name('hv_'+str(loc[1])),fa.w,fa.iw)
            elif loc[0]=='h':
                fa=S.heap[loc[1]]; S.heap[loc[1]]=FA.base(fresh_name('hv_heap%d'%loc[1]),fa.w,fa.iw)
    def handle_loop(self,st,header,body,spec,done):
        depth=len(st.frames); self.covered.add((spec.name,))
        binds=spec.bindings(self,st,header,body) if hasattr(spec,'bindings') else [{}]
        last=None
        if os.environ.get("LLVC_BIND0"): binds=binds[:1]
        for bi,bind in enumerate(binds):
            mark=len(self.obligs)
            try:
                ex=self.try_loop(st,header,body,spec,done,bind,depth)
            except Unsupported as e:
                last=e; del self.obligs[mark:]; continue
            if len(binds)>1 and bi<len(binds)-1:
                import solve
                cand=[o for o in self.obligs[mark:] if o.kind=='loopinv' and o.status is None]
                solve.solve_all(cand,4,8000)
                if any(o.status=='failed' for o in cand): del self.obligs[mark:]; continue
                for o in cand:
                    if o.status!='proved': o.status=None
            out=[]
            for s,act in ex:
                if act and act[0]=='goto':
                    # re-dispatch the edge for outer loops
                    t=act[1]; fr=s.frames[-1]
                    outer=s.loops and s.loops[-1][0]==len(s.frames)
                    if outer:
                        d,h2,b2,c2=s.loops[-1]
                        if t==h2: c2.backs.append(s); continue
                        if t not in b2:
                            s.loops.pop(); c2.exits.append((s,act)); continue
                    if t in fr.fn.loops:
                        blk=fr.blk; fr.blk=fr.prev
                        r=self.goto(s,t,done)
                        out.extend([s] if r is None else r); continue
                out.append(s)
            return out
        raise last or Unsupported('loop invariant not established')
    def try_loop(self,st,header,body,spec,done,bind,depth):
        lv0=LV(self,st,bind=bind)
        spec_entry=st.fork()
        lv0.entry=spec_entry
        line=st.frames[-1].fn.blocks[header].insts[0].line
        fr=st.frames[-1]
        fqual=fr.fn.qual.split('::')[-1]
        for nm,f in spec.inv(lv0): self.oblige(st,'%s.inv-entry:%s'%(spec.name,nm),f,'loopinv',line)
        W={}
        for it in range(10):
            mark=len(self.obligs); dmark=len(done)
            S=st.fork(); self.havoc(S,W)
            if spec.havoc_ghost: spec.havoc_ghost(LV(self,S,bind=bind,entry=spec_entry))
            lv=LV(self,S,bind=bind,entry=spec_entry)
            for nm,f in spec.inv(lv):
                S.assume(f.schema() if isinstance(f,Forall) else f)
            if hasattr(spec,'lemmas'): S.assume(list(spec.lemmas(lv)))     # instances of separately proved lemmas
            S0=S.fork()
            ctx=LoopCtx(); S.loops.append((depth,header,body,ctx))
            d2=self.explore_from(S)
            done.extend(d2)
            new={}
            for B in ctx.backs:
                for loc,v in self.diff(S0,B).items():
                    if loc[0]=='g':
                        if not spec.havoc_ghost: raise Unsupported('ghost %s changed in loop'%loc[1])
                        continue
                    if loc not in W: new[loc]=v
            if new:
                for loc,v in new.items(): W[loc]=v
                del self.obligs[mark:]; del done[dmark:]; continue
            for B in ctx.backs:
                lvb=LV(self,B,bind=bind,entry=spec_entry)
                for nm,f in spec.inv(lvb): self.oblige(B,'%s.inv-preserved:%s'%(spec.name,nm),f,'loopinv',line)
                if spec.variant:
                    a=spec.variant(LV(self,S0,bind=bind,entry=spec_entry)); b=spec.variant(lvb)
                    self.oblige(B,'%s.variant'%spec.name,z3.And(z3.ULT(b,a)),'variant',line)
            return ctx.exits
        raise Unsupported('loop write set does not stabilise')
    def explore_from(self,S):
        done=[]; work=[S]; n=0
        while work:
            s=work.pop(); n+=1
            if n>self.maxstates: raise Unsupported('state limit')
            work.extend(self.run(s,done))
        return done
    # ---- return / unwind
    def i_ret(self,st,fr,I,done):
        v=self.op(st,I.ops[0]) if I.ops else None
        r=self.do_ret(st,v,done)
        return [] if r is None else None
    def leave_loops(self,st,pend):
        depth=len(st.frames)
        if st.loops and st.loops[-1][0]==depth:
            d,h,b,ctx=st.loops.pop(); st.pending=pend; ctx.exits.append((st,None)); return True
        return False
    def popframe(self,st):
        f=st.frames.pop()
        for rid,v in f.regs.items():
            pass
        for n,oid in f.names.items(): st.objs.pop(oid,None) if st.frames else None
        return f
    def do_ret(self,st,v,done):
        if self.leave_loops(st,('ret',v)): return None
        f=st.frames[-1]
        if len(st.frames)==1 or f.call is None:
            done.append(('ret',st,v)); return None
        self.popframe(st); I=f.call; cf=st.frames[-1]
        if I.ty[0]!='void': cf.regs[I.id]=v
        if I.op=='invoke': 
            st.pending=None
            r=self.goto(st,I.x[2],done)
            if r is None: return True
            # goto may have captured/forked the state
            self._extra(st,r,done); return None
        cf.ix+=1; return True
    def _extra(self,st,r,done):
        for s in r: done.extend(self.explore_from(s))
    def unwind(self,st,exc,done):
        """exception propagates out of the current frame position"""
        while True:
            if self.leave_loops(st,('unwind',exc)): return None
            f=st.frames[-1]
            if f.fn.nounwind and False: pass
            if len(st.frames)==1 or f.call is None:
                done.append(('throw',st,exc)); return None
            self.popframe(st); I=f.call
            if self._callsite_unwind(st,I,exc,done) : return True if st.pending is None and st.frames else None
            # propagate further from the caller's frame
    def _callsite_unwind(self,st,I,exc,done):
        fr=st.frames[-1]
        if I.op=='invoke':
            st.exc=exc
            r=self.goto(st,I.x[3],done)
            if r is not None: self._extra(st,r,done); raise Unsupported('loop at landing pad')
            return True
        if I.x[1]:
            self.oblige(st,'no-terminate',False,'ub',I.line)
        return False
    def throw(self,st,I,exc,done):
        """exception raised by call instruction I in the current frame; returns list/None like handlers"""
        fr=st.frames[-1]
        if I.op=='invoke':
            st.exc=exc
            fr_ret=self.goto(st,I.x[3],done)
            return fr_ret
        st.pending=('unwind',exc); return None
    TI_PARENT={'_ZTIN5boost6system12system_errorE':'_ZTISt13runtime_error','_ZTISt13runtime_error':'_ZTISt9exception','_ZTISt16invalid_argument':'_ZTISt11logic_error','_ZTISt12length_error':'_ZTISt11logic_error','_ZTISt12out_of_range':'_ZTISt11logic_error','_ZTISt11logic_error':'_ZTISt9exception','_ZTISt9bad_alloc':'_ZTISt9exception','_ZTISt20bad_array_new_length':'_ZTISt9bad_alloc','_ZTISt12domain_error':'_ZTISt11logic_error','_ZTISt17bad_function_call':'_ZTISt9exception'}
    def ti_isa(self,t,c):
        while t is not None:
            if t==c: return True
            t=self.TI_PARENT.get(t)
        return False
    def ti_id(self,t):
        if not hasattr(self,'_tids'): self._tids={}
        return self._tids.setdefault(t,len(self._tids)+1)
    def i_landingpad(self,st,fr,I,done):
        cleanup,clauses=I.x; exc=st.exc; sel=0; match=None
        for c in clauses:
            if c[0]=='null': match='...'; sel=self.ti_id('...'); break
            if c[0]=='g' and self.ti_isa(exc['type'],c[1]): match=c[1]; sel=self.ti_id(c[1]); break
            if c[0] in('agg','zero','undef'): raise Unsupported('filter clause')
        if match is None and not cleanup:
            # not handled here: continue unwinding
            st.pending=('unwind',exc); self._after_lp(st,fr); return None
        self.setreg(fr,I,[exc['ptr'],BV(sel,32)])
    def _after_lp(self,st,fr): pass
    def i_resume(self,st,fr,I,done):
        st.pending=('unwind',st.exc); return None
    # ---- calls
    def i_call(self,st,fr,I,done):
        callee=I.x[0]
        if callee[0]=='asm': raise Unsupported('inline asm')
        args=[None if o[0]=='md' else self.op(st,o) for o in I.ops] if not (callee[0]=='f' and callee[1].startswith('llvm.dbg')) else []
        if callee[0]=='f': name=callee[1]
        else:
            p=self.op(st,callee)
            if isinstance(p,Ptr) and isinstance(p.obj,tuple) and p.obj[0]=='fn': name=p.obj[1]
            elif isinstance(p,Ptr) and isinstance(p.obj,tuple): name=None
            else: 
                h=self.indirect(st,fr,I,p,args,done)
                if h is NotImplemented: raise Unsupported('indirect call %r'%p)
                return h
        return self.call_fn(st,fr,I,name,args,done)
    i_invoke=i_call
    def indirect(self,st,fr,I,p,args,done): return NotImplemented
    def resume_call(self,st,I,v,done):
        """finish a call instruction with result v"""
        fr=st.frames[-1]
        if I.ty[0]!='void': fr.regs[I.id]=v
        if I.op=='invoke': return self.goto(st,I.x[2],done)
        fr.ix+=1; return None
    def outcomes(self,st,I,outs,done):
        """outs: list of ('ret',state,val)/('throw',state,exc)"""
        if len(outs)==1 and outs[0][1] is st:
            k,s,v=outs[0]
            return self.resume_call(s,I,v,done) if k=='ret' else self.throw(s,I,v,done)
        res=[]
        for k,s,v in outs:
            r=self.resume_call(s,I,v,done) if k=='ret' else self.throw(s,I,v,done)
            res.extend([s] if r is None else r)
        return res
    def call_fn(self,st,fr,I,name,args,done):
        if name.startswith('llvm.'):
            return self.intrinsic(st,fr,I,name,args,done)
        fn=self.getfn(name)
        q=fn.qual if fn else name
        c=self.contracts.get(q)
        if c is not None and not(callable(getattr(c,'applies',None)) and not c.applies(self,st,fn,args)):
            self.used_contracts.add(q)
            outs=c.apply(self,st,fn,args,I)
            if outs is not NotImplemented: return self.outcomes(st,I,outs,done)
        h=self.find_stub(q,name)
        if h is not None:
            outs=h(self,st,fn,args,I)
            if outs is not NotImplemented:
                self.stubbed.add(q)
                if not isinstance(outs,list) or (outs and not(isinstance(outs[0],tuple) and outs[0] and outs[0][0] in('ret','throw'))):
                    outs=[('ret',st,outs)]
                return self.outcomes(st,I,outs,done)
        if fn is None or fn.isdecl:
            raise Unsupported('external function %s'%(fn.dem if fn else name))
        if any(f.fn is fn for f in st.frames) and sum(1 for f in st.frames if f.fn is fn)>40: raise Unsupported('recursion %s'%q)
        self.inlined.add(q)
        self.push(st,fn,args,I)
        return None
    def find_stub(self,q,name):
        key=(q,name)
        if key in self._stubcache: return self._stubcache[key]
        r=None
        for pat,h in self.stubs:
            if re.fullmatch(pat,q) or pat==name: r=h; break
        if r is None:
            for pat,h in BASE_STUBS:
                if re.fullmatch(pat,q) or pat==name: r=h; break
        self._stubcache[key]=r; return r
    def intrinsic(self,st,fr,I,name,args,done):
        if name.startswith(('llvm.dbg','llvm.lifetime','llvm.experimental.noalias','llvm.assume','llvm.stacksave','llvm.stackrestore')):
            if I.ty[0]!='void': fr.regs[I.id]=NULL
            fr.ix+=1; return None
        if name.startswith(('llvm.memcpy','llvm.memmove')):
            self.memcpy(st,args[0],args[1],args[2],I.line); fr.ix+=1; return None
        if name.startswith('llvm.memset'):
            self.memset(st,args[0],args[1],args[2],I.line); fr.ix+=1; return None
        if name.startswith('llvm.ctlz'):
            x=args[0]; w=x.size(); r=BV(w,w)
            for b in range(w): r=z3.If(z3.Extract(b,b,x)==1,BV(w-1-b,w),r)
            r=simp(r) if isc(x) else r
            return self.resume_call(st,I,r,done)
        if name.startswith('llvm.cttz'):
            x=args[0]; w=x.size(); r=BV(w,w)
            for b in reversed(range(w)): r=z3.If(z3.Extract(b,b,x)==1,BV(b,w),r)
            return self.resume_call(st,I,simp(r) if isc(x) else r,done)
        if name.startswith('llvm.umax'): return self.resume_call(st,I,z3.If(z3.UGT(args[0],args[1]),args[0],args[1]),done)
        if name.startswith('llvm.umin'): return self.resume_call(st,I,z3.If(z3.ULT(args[0],args[1]),args[0],args[1]),done)
        if name.startswith('llvm.smax'): return self.resume_call(st,I,z3.If(args[0]>args[1],args[0],args[1]),done)
        if name.startswith('llvm.smin'): return self.resume_call(st,I,z3.If(args[0]<args[1],args[0],args[1]),done)
        if name.startswith('llvm.abs'): return self.resume_call(st,I,z3.If(args[0]<0,-args[0],args[0]),done)
        if name.startswith('llvm.eh.typeid.for'):
            p=args[0]; t=p.obj[1:] if isinstance(p.obj,str) else '...'
            return self.resume_call(st,I,BV(self.ti_id(t),32),done)
        if name.startswith('llvm.umul.with.overflow'):
            a,b=args; w=a.size(); r=a*b; ov=z3.Extract(2*w-1,w,z3.ZeroExt(w,a)*z3.ZeroExt(w,b))!=0
            return self.resume_call(st,I,[simp(r),simp(ov)],done)
        if name.startswith('llvm.fshl'):
            a,b,c=args; w=a.size(); c=z3.URem(c,BV(w,w))
            return self.resume_call(st,I,simp(z3.If(c==0,a,(a<<c)|z3.LShR(b,BV(w,w)-c))),done)
        if name.startswith('llvm.trap'):
            self.oblige(st,'trap',False,'ub',I.line); return []
        if name.startswith('llvm.is.constant'): return self.resume_call(st,I,z3.BoolVal(False),done)
        if name.startswith('llvm.expect'): return self.resume_call(st,I,args[0],done)
        if name.startswith('llvm.bswap'):
            a=args[0]; w=a.size(); return self.resume_call(st,I,simp(z3.Concat(*[z3.Extract(k*8+7,k*8,a) for k in range(w//8)])),done)
        raise Unsupported('intrinsic %s'%name)
    def memset(self,st,p,v,n,line):
        o=st.objs.get(p.obj) if p.obj is not None else None
        if isinstance(o,Struct):
            n=simp(n)
            if not isc(n) or p.terms: raise Unsupported('memset')
            n=n.as_long(); o=st.w(p.obj)
            # word-sized zero cells when possible
            k=0
            while k<n:
                sz=8 if n-k>=8 else (4 if n-k>=4 else 1)
                self.put_cell(o,p.c+k,sz,simp(z3.Concat(*([v]*sz))) if sz>1 else v); k+=sz
            return
        if isinstance(o,Arr) and o.stride==1:
            self.range_check(st,o,p,n,'memset',line)
            o=st.w(p.obj); o.fields[0]=o.fields[0].fill(simp(p.off()),n,v); return
        raise Unsupported('memset target')
    def range_check(self,st,o,p,n,what,line):
        if o.n is not None:
            off=p.off()
            self.oblige(st,'bounds:%s'%what,z3.Or(n==0,z3.And(z3.ULE(n,o.n),z3.ULE(off,o.n-n))),'memsafe',line)
    def memcpy(self,st,d,s,n,line):
        n=simp(n)
        if isc(n) and n.as_long()==0: return
        do=st.objs.get(d.obj) if d.obj is not None else None
        so=st.objs.get(s.obj) if s.obj is not None else None
        if (do is None and isinstance(d.obj,str)) or (so is None and isinstance(s.obj,str)): self.oblige(st,'use of released object',False,'memsafe',line)
        if do is not None and getattr(do,'ro',False): self.oblige(st,'frame:%s'%do.name,False,'frame',line)
        if isinstance(do,Struct) and isinstance(so,Struct) and isc(n) and not d.terms and not s.terms:
            n=n.as_long(); o=st.w(d.obj)
            items=sorted((k,v) for k,v in so.cells.items() if k<s.c+n and s.c<k+v[0])
            # unmaterialised bytes of the source: materialise lazily by word
            covered=set()
            for k,(sz,v) in items: covered.update(range(k,k+sz))
            b=s.c
            while b<s.c+n:
                if b in covered: b+=1; continue
                e=b
                while e<s.c+n and e not in covered: e+=1
                k=b
                while k<e:
                    sz=8 if e-k>=8 and (k-s.c)%8==0 else (4 if e-k>=4 and (k-s.c)%4==0 else (2 if e-k>=2 and (k-s.c)%2==0 else 1))
                    v=self.lazy(so.name,k,('int',sz*8)); items.append((k,(sz,v))); so2=st.w(s.obj); so2.cells[k]=(sz,v); so=so2
                    if d.obj==s.obj: o=so2
                    k+=sz
                b=e
            for k,(sz,v) in sorted(items,key=lambda x:x[0]):
                if s.c<=k and k+sz<=s.c+n: self.put_cell(o,d.c+k-s.c,sz,v)
                else:
                    xb=self.as_bv(v,sz*8)
                    for b in range(max(k,s.c),min(k+sz,s.c+n)): self.put_cell(o,d.c+b-s.c,1,simp(z3.Extract((b-k)*8+7,(b-k)*8,xb)))
            return
        if isinstance(do,Arr) and do.stride==1 and isinstance(so,Arr) and so.stride==1:
            self.range_check(st,do,d,n,'memcpy-dst',line); self.range_check(st,so,s,n,'memcpy-src',line)
            o=st.w(d.obj); o.fields[0]=do.fields[0].copy(simp(d.off()),n,so.fields[0],simp(s.off())); return
        if isinstance(do,Arr) and do.stride==1 and isinstance(so,Struct) and isc(n) and not s.terms:
            for k in range(n.as_long()):
                v=self.load(st,s.add(k),('int',8),line); self.store(st,d.add(k),v,('int',8),line)
            return
        if isinstance(do,Struct) and isinstance(so,Arr) and isc(n) and not d.terms:
            nn=n.as_long()
            k=0
            while k<nn:
                sz=8 if nn-k>=8 else (4 if nn-k>=4 else 1)
                v=self.load(st,s.add(k),('int',sz*8),line); self.store(st,d.add(k),v,('int',sz*8),line); k+=sz
            return
        if isinstance(do,Arr) and isc(n) and n.as_long()<=64 and n.as_long()%4==0 and (isinstance(so,(Struct,Arr))):
            nn=n.as_long(); k=0; vals=[]
            while k<nn:
                sz=8 if nn-k>=8 else 4
                T=('ptr',) if sz==8 and isinstance(so,Struct) and not s.terms and (s.c+k) in so.cells and isinstance(so.cells[s.c+k][1],Ptr) else ('int',sz*8)
                vals.append((k,sz,T,self.load(st,s.add(k),T,line))); k+=sz
            for k,sz,T,v in vals: self.store(st,d.add(k),v,T,line)
            return
        h=getattr(self,'raw_memcpy',None)
        if h and h(self,st,d,s,n,line): return
        raise Unsupported('memcpy %s <- %s'%(d,s))
# ---------- base stubs (trusted models of runtime functions) ----------
def _ret(v=None): return lambda ex,st,fn,args,I: v
def _new(nothrow):
    def h(ex,st,fn,args,I):
        if getattr(ex,'alloc_hook',None):
            r=ex.alloc_hook(ex,st,args[0],nothrow,I)
            if r is not NotImplemented: return r
        p=ex.new_struct(st,'new')
        if isc(simp(args[0])): st.objs[p.obj].size=simp(args[0]).as_long()
        t=st.fork()
        if nothrow: return [('ret',st,p),('ret',t,NULL)]
        return [('ret',st,p),('throw',t,mkexc(ex,t,'_ZTISt9bad_alloc'))]
    return h
def mkexc(ex,st,ti,**kw):
    p=ex.new_struct(st,'exc'); d={'ptr':p,'type':ti}; d.update(kw); return d
def _cxa_alloc(ex,st,fn,args,I): return ex.new_struct(st,'exc')
def _cxa_throw(ex,st,fn,args,I):
    ti=args[1].obj[1:] if isinstance(args[1].obj,str) else '?'
    e={'ptr':args[0],'type':ti}
    if args[0].obj in st.ghost.get('excdata',{}): e.update(st.ghost['excdata'][args[0].obj])
    return [('throw',st,e)]
def _begin_catch(ex,st,fn,args,I):
    st.caught.append(st.exc); return args[0]
def _end_catch(ex,st,fn,args,I):
    if st.caught: st.caught.pop()
    return None
def _rethrow(ex,st,fn,args,I):
    return [('throw',st,st.caught[-1])]
def _terminate(ex,st,fn,args,I):
    ex.oblige(st,'no-terminate',False,'ub',I.line); return []
def _term_outs(ex,st,fn,args,I):
    ex.oblige(st,'no-terminate',False,'ub',I.line); ex_dead=[]; return [('ret',st,None)] if False else _DEAD
class _Dead(list): pass
_DEAD=_Dead()
def _memcpy_fn(ex,st,fn,args,I):
    ex.memcpy(st,args[0],args[1],args[2],I.line); return args[0]
def _memset_fn(ex,st,fn,args,I):
    ex.memset(st,args[0],simp(z3.Extract(7,0,args[1])),args[2],I.line); return args[0]
def _isdigit(ex,st,fn,args,I):
    c=args[0]; return ite_b2bv(z3.And(c>=BV(48,32),c<=BV(57,32)),32)
def _ffs(ex,st,fn,args,I):
    x=args[0]; w=x.size(); r=BV(0,32)
    for b in reversed(range(w)): r=z3.If(z3.Extract(b,b,x)==1,BV(b+1,32),r)
    return r
def _excdata_ctor(ti):
    def h(ex,st,fn,args,I):
        return None
    return h
BASE_STUBS=[
 ('operator new',lambda ex,st,fn,args,I:_new(len(args)>1)(ex,st,fn,args,I)),('operator new\\[\\]',lambda ex,st,fn,args,I:_new(len(args)>1)(ex,st,fn,args,I)),
 ('_Znwm',_new(False)),('_Znam',_new(False)),('_ZnwmRKSt9nothrow_t',_new(True)),('_ZnamRKSt9nothrow_t',_new(True)),
 ('_ZdlPv',_ret()),('_ZdaPv',_ret()),('_ZdlPvm',_ret()),('_ZdaPvm',_ret()),('operator delete',_ret()),('operator delete\\[\\]',_ret()),
 ('__cxa_allocate_exception',_cxa_alloc),('__cxa_free_exception',_ret()),('__cxa_throw',_cxa_throw),('__cxa_begin_catch',_begin_catch),('__cxa_end_catch',_end_catch),('__cxa_rethrow',_rethrow),
 ('__clang_call_terminate',_term_outs),('std::terminate',_term_outs),('_ZSt9terminatev',_term_outs),
 ('memcpy',_memcpy_fn),('memmove',_memcpy_fn),('memset',_memset_fn),('isdigit',_isdigit),('ffs',_ffs),('ffsll',_ffs),('std::bad_alloc::bad_alloc',_ret()),
 ('std::invalid_argument::invalid_argument',_ret()),('std::length_error::length_error',_ret()),('std::bad_alloc::~bad_alloc',_ret()),
 ('__cxa_guard_acquire',None),
]
BASE_STUBS=[b for b in BASE_STUBS if b[1] is not None]
