"""C03 item layout, C08 item expiration (item.h, expiration_clock.h)"""
from api import *
from models import *
tu('item','$VERIF/tu/item.cpp'); tu('item_cpp','$REPO/src/cachelot/item.cpp')
S64=z3.BitVecSort(64); TU='item item_cpp'; UMAX=0xFFFFFFFF
class Now:
    """ExpirationClock::now(): any reading below the representable maximum"""
    def __init__(s,var=None): s.var=var
    def apply(s,ex,st,fn,a,I):
        v=s.var if s.var is not None else FreshBV('now',32)
        st.assume(z3.ULT(v,BV(UMAX,32))); return [('ret',st,v)]
NOW='cachelot::cache::ExpirationClock::now'; I_='cachelot::cache::Item::'
def bytes_obj(ex,st,name,n,ro=True):
    p=ex.new_bytes(st,name,n); st.objs[p.obj].ro=ro; return p,st.objs[p.obj].fields[0]
def sl(p,off,n): return [ptr_at(p,off),ptr_at(p,simp(off+n))]
def deadline(now,s):
    """specified expiration time for a time-to-live"""
    w=z3.ZeroExt(1,now)+z3.ZeroExt(1,s); return z3.If(z3.Or(s==0,z3.UGE(w,BV(UMAX,33))),BV(UMAX,32),z3.Extract(31,0,w))
def ctor(c): return c.fn(I_+'Item')
def getters(c,ex,s,it):
    out={}
    for g in('key','value','hash','opaque_flags','timestamp','expiration_time'): s,out[g]=one(ex,s,c.fn(I_+g),[it])
    return s,out
def eqbytes(A,a,B,b,n): return Forall([S64],lambda i:z3.Implies(z3.ULT(i,n),A.sel(simp(a+i))==B.sel(simp(b+i))),[B.a] if B.k=='base' else A.roots(),'i')
@target('C03.construct','C03 C08',TU,funcs=['Item::Item','Item::CalcSizeRequired','Item::KeyOffset','Item::ValueOffset','Item::key','Item::value','Item::hash','Item::opaque_flags','Item::timestamp','Item::expiration_time','Item::set_ttl'])
def t(c):
    now=z3.BitVec('now',32); ex=c.ex('Item::Item',contracts={NOW:Now(now)}); st=State()
    K=z3.BitVec('K',64); V=z3.BitVec('V',32); h=z3.BitVec('h',32); fl=z3.BitVec('fl',16); ttl=z3.BitVec('ttl',32); ts=z3.BitVec('ts',64)
    st.assume([z3.UGE(K,BV(1)),z3.ULE(K,BV(250))])
    kp,KB=bytes_obj(ex,st,'key',simp(K+8)); ks=sl(kp,BV(8),K); v64=z3.ZeroExt(32,V)
    st,R=one(ex,st,c.fn(I_+'CalcSizeRequired'),ks+[v64])
    ex.oblige(st,'required size is header + key + value',R==BV(c.layout('Item','cachelot::cache')[''])+K+v64)
    it=ex.new_bytes(st,'item',R)
    n=0
    st=st.fork(); st.frames=[]
    for kind,s,_ in ex.start(st,ctor(c),[it]+ks+[h,V,fl,ttl,ts]):
        if kind!='ret': ex.oblige(s,'no-throw',False); continue
        n+=1; s,g=getters(c,ex,s,it); B=s.objs[it.obj].fields[0]
        ex.oblige(s,'hash',g['hash']==h); ex.oblige(s,'flags',g['opaque_flags']==fl); ex.oblige(s,'timestamp',g['timestamp']==ts); ex.oblige(s,'expiration',g['expiration_time']==deadline(now,ttl))
        kb,ke=g['key']; vb,ve=g['value']
        ex.oblige(s,'key lies inside the item',z3.And(z3.BoolVal(kb.obj==it.obj and ke.obj==it.obj),ke.off()-kb.off()==K,z3.ULE(ke.off(),R),z3.ULE(kb.off(),R)))
        ex.oblige(s,'key bytes',Forall([S64],lambda i:z3.Implies(z3.ULT(i,K),B.sel(simp(kb.off()+i))==KB.sel(simp(i+8))),[KB.a],'i'))
        ex.oblige(s,'value lies inside the item, after the key',z3.And(z3.BoolVal(vb.obj==it.obj and ve.obj==it.obj),ve.off()-vb.off()==v64,z3.UGE(vb.off(),ke.off()),z3.ULE(ve.off(),R),z3.ULE(vb.off(),ve.off())))
    ex.oblige(State(),'cover',n>0,'cover')
def live_item(c,ex,st,cap,K):
    """an arbitrary constructed item with key length K and value capacity cap: result of the real constructor on arbitrary arguments"""
    hdr=c.layout('Item','cachelot::cache')['']
    it=ex.new_bytes(st,'item',simp(BV(hdr)+K+z3.ZeroExt(32,cap))); kp,KB=bytes_obj(ex,st,'key',simp(K+8))
    f=[z3.BitVec('h',32),cap,z3.BitVec('fl',16),z3.BitVec('ttl',32),z3.BitVec('ts',64)]
    outs=ex.start(st,ctor(c),[it]+sl(kp,BV(8),K)+f)
    res=[]
    for kind,s,_ in outs:
        # generalise the written bytes: an arbitrary value already stored
        o=s.w(it.obj); B=FA.base(fresh_name('itemB'),8); old=o.fields[0]; n=simp(BV(hdr)+K)
        o.fields[0]=FA('copy',(B,BV(0),n,old,BV(0)),8,64); res.append(s)
    return it,res
def assign(c,nm,parts):
    now=z3.BitVec('now',32); ex=c.ex('Item::'+nm,contracts={NOW:Now(now)}); st=State(); K=z3.BitVec('K',64); cap=z3.BitVec('V',32); st.assume([z3.UGE(K,BV(1)),z3.ULE(K,BV(250))])
    it,ss=live_item(c,ex,st,cap,K); n=0
    for s in ss:
        args=[it]; src=[]; tot=BV(0)
        for k in range(parts):
            L=z3.BitVec('L%d'%k,64); s.assume(z3.ULE(L,BV(UMAX))); p,PB=bytes_obj(ex,s,'part%d'%k,simp(L+8)); args+=sl(p,BV(8),L); src.append((PB,L)); tot=simp(tot+L)
        s.assume(z3.ULE(tot,z3.ZeroExt(32,cap)))
        s0,g0=getters(c,ex,s,it); B0=s0.objs[it.obj].fields[0]
        for kind,s1,_ in again(ex,s0,c.fn(I_+nm),args):
            if kind!='ret': ex.oblige(s1,'no-throw',False); continue
            n+=1; s2,g=getters(c,ex,s1,it); B=s2.objs[it.obj].fields[0]
            for f in('hash','opaque_flags','timestamp','expiration_time'): ex.oblige(s2,f+' unchanged',g[f]==g0[f])
            kb,ke=g['key']; ex.oblige(s2,'key range unchanged',z3.And(z3.BoolVal(kb.obj==it.obj),kb.off()==g0['key'][0].off(),ke.off()==g0['key'][1].off()))
            i=FreshBV('i',64); ex.oblige(s2,'key bytes unchanged',z3.Implies(z3.ULT(i,K),B.sel(simp(kb.off()+i))==B0.sel(simp(kb.off()+i))))
            vb,ve=g['value']; ex.oblige(s2,'value range',z3.And(z3.BoolVal(vb.obj==it.obj),vb.off()==g0['value'][0].off(),ve.off()-vb.off()==tot))
            at=BV(0)
            for j,(PB,L) in enumerate(src):
                i=FreshBV('i',64); ex.oblige(s2,'value bytes of part %d'%j,z3.Implies(z3.ULT(i,L),B.sel(simp(vb.off()+at+i))==PB.sel(simp(i+8)))); at=simp(at+L)
    ex.oblige(State(),'cover',n>0,'cover')
@target('C03.assign_value','C03',TU,funcs=['Item::assign_value'])
def t2(c): assign(c,'assign_value',1)
@target('C03.assign_compose','C03 C11',TU,funcs=['Item::assign_compose'])
def t3(c): assign(c,'assign_compose',2)
# ---- C08
@target('C08.item_clock','C08',TU,funcs=['Item::set_ttl','Item::is_expired','Item::ttl','Item::set_expiration_time','Item::expiration_time'])
def t4(c):
    T=[z3.BitVec('t%d'%k,32) for k in range(2)]; s_=z3.BitVec('s',32)
    ex=c.ex('Item expiration',contracts={NOW:Now(T[0])}); st=State(); n=0
    lay=c.layout('Item','cachelot::cache'); it=ex.new_bytes(st,'item',BV(lay['']+8)); o0=lay['m_expiration_time'][0]; B0=st.objs[it.obj].fields[0]
    for kind,s,_ in ex.start(st,c.fn(I_+'set_ttl'),[it,s_]):
        if kind!='ret': ex.oblige(s,'no-throw',False); continue
        s,e=one(ex,s,c.fn(I_+'expiration_time'),[it]); ex.oblige(s,'deadline is now+ttl, or never',e==deadline(T[0],s_))
        i=FreshBV('i',64); ex.oblige(s,'only the deadline changes',z3.Implies(z3.And(z3.ULT(i,BV(lay['']+8)),z3.Not(z3.And(z3.UGE(i,BV(o0)),z3.ULT(i,BV(o0+4))))),s.objs[it.obj].fields[0].sel(i)==B0.sel(i)),'frame')
        ex.contracts={NOW:Now(T[1])}; s,x=one(ex,s,c.fn(I_+'is_expired'),[it]); n+=1
        w=z3.ZeroExt(1,T[0])+z3.ZeroExt(1,s_)
        ex.oblige(s,'expired exactly from t+s on, never when infinite',x==z3.And(s_!=0,z3.ULE(w,z3.ZeroExt(1,T[1]))))
        for k2,s2,r in again(ex,s,c.fn(I_+'ttl'),[it]):
            if k2!='ret': ex.oblige(s2,'no-throw',False); continue
            ex.oblige(s2,'remaining time of a live item',z3.Implies(z3.Not(x),z3.If(e==UMAX,r==0,r==e-T[1])))
        d=z3.BitVec('d',32); s3,_=one(ex,s,c.fn(I_+'set_expiration_time'),[it,d]); s3,e3=one(ex,s3,c.fn(I_+'expiration_time'),[it]); ex.oblige(s3,'set_expiration_time stores the deadline',e3==d)
        ex.contracts={NOW:Now(T[0])}
    ex.oblige(State(),'cover',n>0,'cover')
@target('C08.clock','C08',TU,funcs=['ExpirationClock::now'])
def t5(c):
    ns=z3.BitVec('ns',64); ex=c.ex('ExpirationClock::now',stubs=[('std::chrono::.*steady_clock::now',lambda ex,st,fn,a,I:ns)]); ex.trusted.add('steady_clock::now() is monotonic')
    st=State(); st.assume([ns>=0]); n=0
    for kind,s,v in ex.start(st,c.fn(NOW),[]):
        n+=1; q=z3.ZeroExt(32,v)
        # whole seconds of the monotonic clock: v*10^9 <= ns < (v+1)*10^9 while it fits 32 bits
        ex.oblige(s,'whole seconds of the monotonic clock',v==z3.Extract(31,0,ns/BV(10**9)))
    ex.oblige(State(),'cover',n>0,'cover')
