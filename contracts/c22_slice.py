"""C22 byte ranges (slice.h)"""
from api import *
from models import *
tu('slice','$VERIF/tu/slice.cpp')
S64=z3.BitVecSort(64)
Match=z3.Function('Match',S64,z3.BoolSort())    # Match(p): the needle occurs at absolute offset p of the haystack
class SearchStub:
    """std::search: first occurrence of [nb,ne) in [hb,he), or he"""
    def __init__(s,needle): s.needle=needle     # (obj, lo, len) of the needle Match speaks about
    def __call__(s,ex,st,fn,a,I):
        hb,he,nb,ne=a
        if hb.obj!=he.obj or nb.obj!=ne.obj: raise Unsupported('std::search ranges')
        n=simp(he.off()-hb.off()); m=simp(ne.off()-nb.off())
        rd_range(ex,st,hb,n,I.line,'search'); rd_range(ex,st,nb,m,I.line,'search')
        ex.oblige(st,'pre:search ranges',z3.And(z3.ULE(hb.off(),he.off()),z3.ULE(nb.off(),ne.off())),'pre',I.line)
        ex.trusted.add('std::search returns the first occurrence of the needle in the haystack, or its end')
        if isc(m) and m.as_long()==1:
            c=byte_at(ex,st,nb)(BV(0)); H=byte_at(ex,st,Ptr(hb.obj)); M=lambda p:H(p)==c; trig=trig_of(ex,st,hb)
        else:
            # the needle must be the one Match is about
            ex.oblige(st,'searches for the given needle',z3.And(z3.BoolVal(nb.obj==s.needle[0]),nb.off()==s.needle[1],m==s.needle[2]) if nb.obj==s.needle[0] else False,'post',I.line)
            M=lambda p:Match(p); trig=['Match']
        lo,hi=simp(hb.off()),simp(he.off()); none=st.fork()
        pos=FreshBV('found',64)
        st.assume([z3.ULE(lo,pos),z3.ULE(m,n),z3.ULE(pos,hi-m),M(pos)])
        st.schemas.append(Schema('first',[S64],lambda p:z3.Implies(z3.And(z3.ULE(lo,p),z3.ULT(p,pos)),z3.Not(M(p))),trig))
        none.schemas.append(Schema('none',[S64],lambda p:z3.Implies(z3.And(z3.ULE(lo,p),z3.ULE(m,n),z3.ULE(p,hi-m)),z3.Not(M(p))),trig))
        none.assume(m!=0)
        return [('ret',st,ptr_at(hb,pos)),('ret',none,he)]
def setup(c,name,alias=False):
    ex=c.ex(name); st=State(); N=z3.BitVec('N',64); M=z3.BitVec('M',64); lo=z3.BitVec('lo',64); ln=z3.BitVec('ln',64); LIM=BV(1<<40)
    st.assume([z3.ULE(N,LIM),z3.ULE(M,LIM),z3.ULE(lo,LIM),z3.ULE(ln,LIM)])
    size=simp(lo+N+64) if not alias else z3.BitVec('size',64)
    hay=ex.new_bytes(st,'range',size); A=st.objs[hay.obj].fields[0]; st.objs[hay.obj].ro=True
    if alias: st.assume([z3.ULE(size,BV(1<<42)),z3.ULE(lo+N,size),z3.ULE(ln+M,size)]); nd=hay; B=A
    else:
        nd=ex.new_bytes(st,'other',simp(ln+M)); B=st.objs[nd.obj].fields[0]; st.objs[nd.obj].ro=True
        ha,na=ex.base_addr(hay.obj),ex.base_addr(nd.obj); big=BV(1<<46)
        st.assume([z3.ULE(ha,big),z3.ULE(na,big),z3.UGE(ha,BV(4096)),z3.UGE(na,BV(4096)),z3.Or(z3.ULE(ha+lo+N+64,na),z3.ULE(na+ln+M,ha))])
    ex.stubs=MEM_STUBS+[('std::search',SearchStub((nd.obj,simp(ln),simp(M))))]
    self=ex.new_struct(st,'self',16); ex.store(st,self,ptr_at(hay,lo),('ptr',)); ex.store(st,self.add(8),ptr_at(hay,simp(lo+N)),('ptr',)); st.objs[self.obj].ro=True
    oth=ex.new_struct(st,'oth',16); ex.store(st,oth,ptr_at(nd,ln),('ptr',)); ex.store(st,oth.add(8),ptr_at(nd,simp(ln+M)),('ptr',)); st.objs[oth.obj].ro=True
    return ex,st,dict(self=self,oth=oth,hay=hay,nd=nd,A=A,B=B,lo=lo,ln=ln,N=N,M=M)
def sl(e): return [e,e]
def getsl(ex,s,p): return ex.load(s,p,('ptr',)),ex.load(s,p.add(8),('ptr',))
def same_bytes(A,a,B,b,n): 
    return Forall([S64],lambda i:z3.Implies(z3.ULT(i,n),A.sel(simp(a+i))==B.sel(simp(b+i))),[A.a,B.a],'same')
def differ(s,A,a,B,b,n):
    return z3.Or(False,*[z3.And(z3.ULT(w,n),A.sel(simp(a+w))!=B.sel(simp(b+w))) for w in s.ghost.get('wit',())])
def eq_target(c,alias,op):
    ex,st,d=setup(c,'slice::operator'+op+(' (same storage)' if alias else ''),alias); seen=set()
    fn=c.fn('cachelot::slice::operator'+op)
    for kind,s,v in ex.start(st,fn,[d['self'],d['oth']]):
        if kind!='ret': ex.oblige(s,'no-throw',False); continue
        for truth,cond in((True,v),(False,z3.Not(v))):
            if not ex.feasible(s,cond): continue
            t=s.fork(); t.assume(cond); iseq=truth==(op=='=='); seen.add(iseq)
            if iseq:
                ex.oblige(t,'equal ranges have equal length',d['N']==d['M']); ex.oblige(t,'equal ranges have equal bytes',same_bytes(d['A'],d['lo'],d['B'],d['ln'],d['N']))
            else: ex.oblige(t,'unequal ranges differ in length or some byte',z3.Or(d['N']!=d['M'],differ(t,d['A'],d['lo'],d['B'],d['ln'],d['N'])))
    ex.oblige(State(),'cover',seen=={True,False},'cover')
for op in('==','!='):
    for al in(False,True):
        (lambda op,al: target('C22.operator%s%s'%(op,' aliased' if al else ''),'C22','slice',funcs=['slice::operator'+op])(lambda c:eq_target(c,al,op)))(op,al)
@target('C22.startswith','C22','slice',funcs=['slice::startswith','slice::endswith'])
def sw(c):
    for nm in('startswith','endswith'):
        for al in(False,True):
            ex,st,d=setup(c,nm+(' aliased' if al else ''),al); fn=c.fn('cachelot::slice::'+nm); seen=set()
            for kind,s,v in ex.start(st,fn,[d['self']]+list(getsl(ex,st,d['oth']))):
                if kind!='ret': ex.oblige(s,'no-throw',False); continue
                at=d['lo'] if nm=='startswith' else simp(d['lo']+d['N']-d['M'])
                for truth,cond in((True,v),(False,z3.Not(v))):
                    if not ex.feasible(s,cond): continue
                    t=s.fork(); t.assume(cond); seen.add(truth)
                    if truth: ex.oblige(t,'true only if it fits',z3.ULE(d['M'],d['N'])); ex.oblige(t,'true only if the bytes are equal',same_bytes(d['A'],at,d['B'],d['ln'],d['M']))
                    else: ex.oblige(t,'false only if too long or some byte differs',z3.Or(z3.UGT(d['M'],d['N']),differ(t,d['A'],at,d['B'],d['ln'],d['M'])))
            ex.oblige(State(),'cover',seen=={True,False},'cover')
def is_sl(ex,b,e,obj,x,y): return z3.And(z3.BoolVal(isinstance(b,Ptr) and b.obj==obj and e.obj==obj),b.off()==x,e.off()==y)
def nomatch(lo,M,N): return Forall([S64],lambda p:z3.Implies(z3.And(z3.ULE(lo,p),z3.ULE(M,N),z3.ULE(p,lo+N-M)),z3.Not(Match(p))),['Match'],'p')
def nomatch_before(lo,pos): return Forall([S64],lambda p:z3.Implies(z3.And(z3.ULE(lo,p),z3.ULT(p,pos)),z3.Not(Match(p))),['Match'],'p')
@target('C22.search','C22','slice',funcs=['slice::search','slice::contains','slice::split(slice)'])
def se(c):
    for nm in('search','contains','split'):
        ex,st,d=setup(c,nm); st.assume(d['M']!=0)
        fn=c.fn('cachelot::slice::'+nm,lambda f:'(cachelot::slice)' in f.dem); seen=set()
        lo,N,M,hay=d['lo'],d['N'],d['M'],d['hay'].obj
        args=[d['self']]+list(getsl(ex,st,d['oth']))
        if nm=='split': res=ex.new_struct(st,'res',32); args=[res]+args
        for kind,s,v in ex.start(st,fn,args):
            if kind!='ret': ex.oblige(s,'no-throw',False); continue
            if nm=='contains':
                for truth,cond in((True,v),(False,z3.Not(v))):
                    if not ex.feasible(s,cond): continue
                    t=s.fork(); t.assume(cond); seen.add(truth)
                    if truth: 
                        fnd=[x for x in vars_of(t,'found')]
                        ex.oblige(t,'true only if it occurs',z3.Or(False,*[z3.And(z3.ULE(lo,p),z3.ULE(M,N),z3.ULE(p,lo+N-M),Match(p)) for p in fnd]))
                    else: ex.oblige(t,'false only if it does not occur',nomatch(lo,M,N))
                continue
            if nm=='search':
                b,e=v
                if b.isnull() and e.isnull(): seen.add(False); ex.oblige(s,'empty result only if no occurrence',nomatch(lo,M,N)); continue
                seen.add(True); p=b.off()
                ex.oblige(s,'result is a range of the needle\'s length inside the searched range',z3.And(z3.BoolVal(b.obj==hay and e.obj==hay),e.off()==p+M,z3.ULE(lo,p),z3.ULE(M,N),z3.ULE(p,lo+N-M)))
                ex.oblige(s,'result is an occurrence',Match(p)); ex.oblige(s,'no earlier occurrence',nomatch_before(lo,p))
            else:
                b1,e1=getsl(ex,s,res.add(16)); b2,e2=getsl(ex,s,res)
                if b2.isnull():
                    seen.add(False); ex.oblige(s,'without separator: whole range and an empty one',z3.And(is_sl(ex,b1,e1,hay,lo,lo+N),z3.BoolVal(e2.isnull()))); ex.oblige(s,'unsplit only if no occurrence',nomatch(lo,M,N)); continue
                seen.add(True); p=e1.off()
                ex.oblige(s,'pieces before and after the separator',z3.And(is_sl(ex,b1,e1,hay,lo,p),is_sl(ex,b2,e2,hay,p+M,lo+N),z3.ULE(lo,p),z3.ULE(M,N),z3.ULE(p,lo+N-M)))
                ex.oblige(s,'split at an occurrence',Match(p)); ex.oblige(s,'split at the first occurrence',nomatch_before(lo,p))
        ex.oblige(State(),'cover',seen=={True,False},'cover')
def vars_of(st,pref):
    out={}; seen=set(); stk=list(st.pc)
    while stk:
        t=stk.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind()==z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith(pref): out[t.decl().name()]=t
        stk.extend(t.children())
    return list(out.values())
@target('C22.split_char','C22 C14','slice',funcs=['slice::split(char)'])
def spc(c):
    ex,st,d=setup(c,'split(char)'); fn=c.fn('cachelot::slice::split',lambda f:'(char)' in f.dem); seen=set(); ch=z3.BitVec('ch',8)
    res=ex.new_struct(st,'res',32); lo,N,A,hay=d['lo'],d['N'],d['A'],d['hay'].obj
    # the temporary holding the separator is not inside the range
    for kind,s,v in ex.start(st,fn,[res,d['self'],ch]):
        if kind!='ret': ex.oblige(s,'no-throw',False); continue
        loc=[x for x in vars_of(s,'&separator')]
        s.assume([z3.And(z3.ULE(x,BV(1<<47)),z3.UGE(x,BV(4096)),z3.Or(z3.ULT(x,ex.base_addr(hay)),z3.UGE(x,ex.base_addr(hay)+lo+N+64))) for x in loc])
        if not ex.feasible(s,z3.BoolVal(True)): continue
        b1,e1=getsl(ex,s,res.add(16)); b2,e2=getsl(ex,s,res)
        if b2.isnull():
            seen.add(False); ex.oblige(s,'without separator: whole range and an empty one',z3.And(is_sl(ex,b1,e1,hay,lo,lo+N),z3.BoolVal(e2.isnull())))
            ex.oblige(s,'unsplit only if the byte does not occur',Forall([S64],lambda i:z3.Implies(z3.And(z3.ULE(lo,i),z3.ULT(i,lo+N)),A.sel(i)!=ch),[A.a],'i')); continue
        seen.add(True); p=e1.off()
        ex.oblige(s,'pieces before and after the separator',z3.And(is_sl(ex,b1,e1,hay,lo,p),is_sl(ex,b2,e2,hay,p+1,lo+N),z3.ULE(lo,p),z3.ULT(p,lo+N)))
        ex.oblige(s,'split at the separator',A.sel(p)==ch)
        ex.oblige(s,'split at the first separator',Forall([S64],lambda i:z3.Implies(z3.And(z3.ULE(lo,i),z3.ULT(i,p)),A.sel(i)!=ch),[A.a],'i'))
    ex.oblige(State(),'cover',seen=={True,False},'cover')
@target('C22.subranges','C22 C14','slice',funcs=['slice::subslice','slice::rtrim_n','slice::split_at','slice::nth','slice::operator[]','slice::length','slice::empty','slice::contains(ptr)','slice::slice'])
def sub(c):
    k=z3.BitVec('k',64); l=z3.BitVec('l',64)
    def run(nm,dem,args,pre,post):
        ex,st,d=setup(c,nm+dem); fn=c.fn('cachelot::slice::'+nm,lambda f:dem in f.dem)
        st.assume(pre(d)); n=0; a=args(ex,st,d)
        for kind,s,v in ex.start(st,fn,a):
            if kind!='ret': ex.oblige(s,'no-throw',False); continue
            n+=1
            for nn,g in post(ex,s,d,v,a): ex.oblige(s,nn,g)
        ex.oblige(State(),'cover',n>0,'cover')
    H=lambda d:d['hay'].obj
    run('subslice','',lambda ex,st,d:[d['self'],k,l],lambda d:[z3.ULE(k,d['N']),z3.ULE(l,d['N']-k)],lambda ex,s,d,v,a:[('exactly the bytes [index,index+len)',is_sl(ex,v[0],v[1],H(d),d['lo']+k,d['lo']+k+l))])
    run('rtrim_n','',lambda ex,st,d:[d['self'],k],lambda d:[z3.ULE(k,d['N'])],lambda ex,s,d,v,a:[('drops exactly the last n bytes',is_sl(ex,v[0],v[1],H(d),d['lo'],d['lo']+d['N']-k))])
    def two(ex,s,d,v,a): 
        b1,e1=getsl(ex,s,a[0].add(16)); b2,e2=getsl(ex,s,a[0]); return [('pieces join to the range',z3.And(is_sl(ex,b1,e1,H(d),d['lo'],d['lo']+k),is_sl(ex,b2,e2,H(d),d['lo']+k,d['lo']+d['N'])))]
    run('split_at','(unsigned long)',lambda ex,st,d:[ex.new_struct(st,'res',32),d['self'],k],lambda d:[z3.ULE(k,d['N'])],two)
    run('split_at','(char const*)',lambda ex,st,d:[ex.new_struct(st,'res',32),d['self'],ptr_at(d['hay'],simp(d['lo']+k))],lambda d:[z3.ULE(k,d['N'])],two)
    run('operator[]','',lambda ex,st,d:[d['self'],k],lambda d:[z3.ULT(k,d['N'])],lambda ex,s,d,v,a:[('the byte at index',v==d['A'].sel(d['lo']+k))])
    run('length','',lambda ex,st,d:[d['self']],lambda d:[],lambda ex,s,d,v,a:[('length',v==d['N'])])
    run('empty','',lambda ex,st,d:[d['self']],lambda d:[],lambda ex,s,d,v,a:[('empty iff no byte',v==(d['N']==0))])
    run('contains','(char const*)',lambda ex,st,d:[d['self'],ptr_at(d['hay'],k)],lambda d:[z3.ULE(k,BV(1<<41))],lambda ex,s,d,v,a:[('pointer inside',v==z3.And(z3.ULE(d['lo'],k),z3.ULT(k,d['lo']+d['N'])))])
