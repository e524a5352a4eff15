"""C02 C06 C08 C09 C10 C11 C19: the cache operations (cache.h) against the contracts of the index (dict) and the allocator (memalloc)"""
from api import *
from models import *
from c03_item import deadline, I_, NOW, UMAX, sl
tu('cache','$VERIF/tu/cache.cpp'); tu('stats_cpp','$REPO/src/cachelot/stats.cpp'); TU='cache item_cpp stats_cpp'
S64=z3.BitVecSort(64); C_='cachelot::cache::Cache::'; D_='cachelot::dict::'; M_='cachelot::memalloc::'
DECLEN=z3.Function('DECLEN',S64,S64); DECB=z3.Function('DECB',S64,S64,z3.BitVecSort(8))
SYSERR='_ZTIN5boost6system12system_errorE'; BADALLOC='_ZTISt9bad_alloc'; INVARG='_ZTISt16invalid_argument'
STATS='@_ZN8cachelot9__stats__E'
FIELDS=dict(m_timestamp=8,m_hash=4,m_value_length=4,m_expiration_time=4,m_opaque_flags=2,m_key_length=1)
# ---- ghost helpers (immutable values; st.ghost is copied shallowly on fork)
def gget(st,k,d=None): return st.ghost.get(k,d)
def gadd(st,k,v): st.ghost[k]=gget(st,k,())+(v,)
def same_ptr(p,q): return isinstance(p,Ptr) and isinstance(q,Ptr) and p.obj==q.obj and p.obj is not None
class W:
    """the abstract cache: one arbitrary key (the operation's), its slot, the live items"""
    def __init__(w,c,name,present,evict=None):
        w.c=c; w.lay=c.layout('Item','cachelot::cache'); w.HDR=w.lay['']; w.cl=c.flat('Cache','cachelot::cache'); w.sl=c.flat('stats','cachelot'); w.SH=c.layout('stats','cachelot')['']
        w.present=present
        cons={NOW:Clock(w),D_+'entry_for':EntryFor(w),D_+'insert':Insert(w),D_+'remove':Remove(w),D_+'del':Del(w),D_+'remove_if':RemoveIf(w),D_+'size':Const('dict.size',32),D_+'capacity':Const('dict.capacity',32),D_+'is_expanding':Const('dict.expanding',1),
              D_+'iterator::value':ItValue(w),D_+'iterator::operator bool':ItBool(w),D_+'iterator::unsafe_replace_kv':ItReplace(w),D_+'iterator::key':Refuse(),
              M_+'alloc_or_evict':Alloc(w),M_+'free':Free(w),M_+'touch':Touch(w),M_+'realloc_inplace':Refuse(),
              'cachelot::str_to_int':StrToInt(w),'cachelot::int_to_str':IntToStr(w)}
        w.ex=ex=c.ex(name,contracts=cons,stubs=EC_STUBS+MEM_STUBS+STUBS(w))
        ex.trusted.add('user-supplied eviction callbacks do not throw and do not call back into the cache')
        w.st=st=State(); st.ghost.update(live=frozenset(),slot=None,nows=(),del_=(),cb=(),items={},its={},touched=())
        w.cache=ex.new_struct(st,'cache',w.c.layout('Cache','cachelot::cache')[''])
        w.page=z3.BitVec('page_size',32 if w.cl['m_allocator.page_size'][1]==4 else 64); ps=w.cl['m_allocator.page_size']
        ex.store(st,w.cache.add(ps[0]),w.page,('int',ps[1]*8)); p64=w.page if ps[1]==8 else z3.ZeroExt(32,w.page)
        w.page64=p64; st.assume([z3.UGE(p64,BV(256)),z3.ULE(p64,BV(1<<31)),p64&(p64-1)==0])
        w.ev=z3.Bool('evictions_enabled'); ex.store(st,w.cache.add(w.cl['m_evictions_enabled'][0]),w.ev,('int',8))
        w.K=z3.BitVec('K',64); w.h=z3.BitVec('h',32); st.assume([z3.UGE(w.K,BV(1)),z3.ULE(w.K,BV(250))])
        w.key=ex.new_bytes(st,'key',w.K); st.objs[w.key.obj].ro=True; w.KB=st.objs[w.key.obj].fields[0]
        w.new0=w.fld(st,'m_newest_timestamp'); w.cbset=z3.Bool('callback_set')
        st.assume(z3.ULT(w.new0,BV((1<<64)-1))); ex.trusted.add('fewer than 2^64-1 versions are issued')
        st.objs[STATS]=Struct(STATS,w.SH); w.s0={}
        for k,(o,s) in w.sl.items():
            if k.startswith('cache.') and s==8:
                w.s0[k]=z3.BitVec('stat.'+k,64); ex.store(st,Ptr(STATS,o),w.s0[k],('int',64)); st.assume(z3.ULT(w.s0[k],BV((1<<64)-1)))
        ex.trusted.add('statistics counters stay below 2^64-1')
        w.old=None
        if present:
            w.old=w.item(st,'old',w.KB,w.K,w.h); st.ghost['slot']=w.old
    def fld(w,st,n):
        o,s=w.cl[n]; return w.ex.load(st,w.cache.add(o),('int',8*s))
    def item(w,st,name,KB,K,h):
        """an arbitrary live item holding that key; its bytes are what the constructor and the assign functions leave (C03)"""
        ex=w.ex; V=z3.BitVec(name+'.V',32); v64=z3.ZeroExt(32,V); n=simp(BV(w.HDR)+K+v64)
        p=ex.new_bytes(st,name,n); o=st.w(p.obj); o.fields[0]=o.fields[0].copy(BV(w.HDR),K,KB,BV(0))
        f=dict(m_hash=h,m_value_length=V,m_key_length=simp(z3.Extract(7,0,K)))
        for k,x in FIELDS.items():
            if k not in f: f[k]=z3.BitVec(name+'.'+k,8*x)
            ex.store(st,p.add(w.lay[k][0]),f[k],('int',8*x))
        st.assume(z3.ULE(n,w.page64-BV(8))); st.assume(z3.ULE(f['m_timestamp'],w.new0))
        st.ghost['live']=st.ghost['live']|{p.obj}; st.ghost['items']=dict(st.ghost['items']); st.ghost['items'][p.obj]=(KB,K,h)
        setattr(w,'f_'+name,f); setattr(w,'n_'+name,n); setattr(w,'B_'+name,st.objs[p.obj].fields[0]); return p
    def f(w,st,p,k): return w.ex.load(st,p.add(w.lay[k][0]),('int',8*FIELDS[k]))
    def stat(w,st,k): return w.ex.load(st,Ptr(STATS,w.sl[k][0]),('int',64))
    # ---- checks used by the contracts
    def need_key(w,st,b,e,line,what,key=None):
        KB,K,_=key or (w.KB,w.K,w.h); ex=w.ex
        if not same_ptr(b,e) or b.obj not in st.objs or not isinstance(st.objs[b.obj],Arr): ex.oblige(st,what+': key is a live byte range',False,'pre',line); return
        B=st.objs[b.obj].fields[0]; o=simp(b.off()); i=FreshBV('i',64)
        ex.oblige(st,what+': key length',simp(e.off()-b.off())==K,'pre',line)
        ex.oblige(st,what+': key bytes',z3.Implies(z3.ULT(i,K),B.sel(simp(o+i))==KB.sel(i)),'pre',line)
    def expired(w,now,dl): return z3.ULE(dl,now)
def STUBS(w):
    def syserr(ex,st,fn,a,I):
        p=a[0]; d=dict(st.ghost.get('excdata',{})); v=None
        if len(a)>=2 and isinstance(a[1],Ptr) and a[1].obj in st.objs: v=ec_val(ex,st,a[1])
        elif len(a)>=2 and isinstance(a[1],z3.BitVecRef): v=a[1]
        d[p.obj]={'code':v}; st.ghost['excdata']=d; return None
    def fbool(ex,st,fn,a,I): return w.cbset
    def fcall(ex,st,fn,a,I):
        ex.oblige(st,'callback invoked only when set',w.cbset,'pre',I.line)
        it=a[-1]; ex.oblige(st,'eviction callback sees a live item',z3.BoolVal(isinstance(it,Ptr) and it.obj in st.ghost['live']),'pre',I.line)
        gadd(st,'cb',it.obj); return None
    return [('boost::system::system_error::system_error',syserr),('boost::system::system_error::~system_error',lambda ex,st,fn,a,I:None),
            ('std::function::operator bool',fbool),('std::function::operator\\(\\)',fcall)]
class Const:
    def __init__(s,n,w): s.n=n; s.w=w
    def apply(s,ex,st,fn,a,I): return [('ret',st,z3.Bool(s.n) if s.w==1 else z3.BitVec(s.n,s.w))]
class Refuse:
    def apply(s,ex,st,fn,a,I): raise Unsupported('no contract for '+fn.qual)
class Clock:
    def __init__(s,w): s.w=w
    def apply(s,ex,st,fn,a,I):
        v=FreshBV('now',32); st.assume(z3.ULT(v,BV(UMAX,32)))
        if st.ghost['nows']: st.assume(z3.UGE(v,st.ghost['nows'][-1]))
        gadd(st,'nows',v); return [('ret',st,v)]
# ---- index
def new_it(w,ex,st,kind,sret_off,sret):
    t=ex.new_struct(st,'slot',0); st.ghost['its']=dict(st.ghost['its']); st.ghost['its'][t.obj]=kind
    ex.store(st,sret.add(sret_off),t,('ptr',)); ex.store(st,sret.add(sret_off+8),FreshBV('pos',32),('int',32)); return t
def it_of(ex,st,t):
    if not isinstance(t,Ptr) or t.obj is None: return None
    return st.ghost['its'].get(t.obj)
def kill_its(st,keep=()): st.ghost['its']={k:(v if k in keep else 'stale') for k,v in st.ghost['its'].items()}
class EntryFor:
    """entry_for(key,hash,readonly): (found, position); the mapping is unchanged; bad_alloc only when not readonly and absent"""
    def __init__(s,w): s.w=w
    def apply(s,ex,st,fn,a,I):
        w=s.w; sret,d,kb,ke,h=a[:5]; ro=a[5] if len(a)>5 else z3.BoolVal(False)
        if not isinstance(ro,z3.BoolRef): ro=bv2bool(ro)
        w.need_key(st,kb,ke,I.line,'entry_for'); ex.oblige(st,'entry_for: hash',h==w.h,'pre',I.line)
        kill_its(st); p=st.ghost['slot']; found=p is not None
        outs=[]
        if not found:
            t=st.fork(); t.assume(z3.Not(ro))
            if ex.feasible(t,z3.BoolVal(True)): outs.append(('throw',t,mkexc(ex,t,BADALLOC)))
        new_it(w,ex,st,'at' if found else 'gap',0,sret); ex.store(st,sret.add(16),z3.BoolVal(found),('int',8))
        return outs+[('ret',st,None)]
class ItBase:
    def __init__(s,w): s.w=w
    def tbl(s,ex,st,p): return ex.load(st,p,('ptr',))
class ItValue(ItBase):
    def apply(s,ex,st,fn,a,I):
        k=it_of(ex,st,s.tbl(ex,st,a[0]))
        if k!='at': ex.oblige(st,'iterator valid',False,'pre',I.line); raise Unsupported('value() of a stale iterator')
        return [('ret',st,st.ghost['slot'])]
class ItBool(ItBase):
    def apply(s,ex,st,fn,a,I):
        k=it_of(ex,st,s.tbl(ex,st,a[0]))
        if k=='at': return [('ret',st,z3.BoolVal(True))]
        return [('ret',st,FreshBool('itbool'))]
class ItReplace(ItBase):
    """unsafe_replace_kv(k,h,v): the entry at the iterator now maps the same key to v"""
    def apply(s,ex,st,fn,a,I):
        w=s.w; k=it_of(ex,st,s.tbl(ex,st,a[0]))
        if k!='at': ex.oblige(st,'iterator valid',False,'pre',I.line); raise Unsupported('replace through a stale iterator')
        w.need_key(st,a[1],a[2],I.line,'replace'); ex.oblige(st,'replace: hash',a[3]==w.h,'pre',I.line); s.link(ex,st,a[4],I)
        return [('ret',st,None)]
    def link(s,ex,st,v,I):
        ex.oblige(st,'only a live item is linked',z3.BoolVal(isinstance(v,Ptr) and v.obj in st.ghost['live']),'pre',I.line)
        if v.obj in st.objs:
            w=s.w; ex.oblige(st,'linked item carries the hash',w.f(st,v,'m_hash')==w.h,'pre',I.line); w.need_key(st,v.add(w.HDR),ptr_at(v,simp(BV(w.HDR)+z3.ZeroExt(56,w.f(st,v,'m_key_length')))),I.line,'linked item')
        st.ghost['slot']=v
class Insert(ItReplace):
    """insert(where,key,hash,v): where must come from entry_for for that absent key, with nothing but its removal in between"""
    def apply(s,ex,st,fn,a,I):
        w=s.w; sret=None
        if len(a)==8: sret=a[0]; d,tb,pos,kb,ke,h,v=a[1:]
        else: d,tb,pos,kb,ke,h,v=a
        k=it_of(ex,st,tb)
        ex.oblige(st,'insert position valid',z3.BoolVal(k=='gap'),'pre',I.line); ex.oblige(st,'insert: key is absent',z3.BoolVal(st.ghost['slot'] is None),'pre',I.line)
        w.need_key(st,kb,ke,I.line,'insert'); ex.oblige(st,'insert: hash',h==w.h,'pre',I.line); s.link(ex,st,v,I); kill_its(st)
        t=ex.new_struct(st,'slot',0); st.ghost['its'][t.obj]='at'; p=FreshBV('pos',32)
        if sret is not None: ex.store(st,sret,t,('ptr',)); ex.store(st,sret.add(8),p,('int',32)); return [('ret',st,None)]
        return [('ret',st,[t,p])]
class Remove(ItBase):
    """remove(where): unlinks exactly that entry; the position can still be used to insert the same key"""
    def apply(s,ex,st,fn,a,I):
        tb=a[1]; k=it_of(ex,st,tb)
        ex.oblige(st,'remove: iterator valid',z3.BoolVal(k=='at'),'pre',I.line)
        if k!='at': raise Unsupported('remove through a stale iterator')
        st.ghost['slot']=None; kill_its(st); st.ghost['its'][tb.obj]='gap'; return [('ret',st,None)]
class Del(ItBase):
    """del(key,hash): unlinks the entry with that key if there is one"""
    def apply(s,ex,st,fn,a,I):
        w=s.w; _,kb,ke,h=a; it=st.ghost['items'].get(kb.obj); kill_its(st)
        if it is None or kb.obj not in st.ghost['live']:
            w.need_key(st,kb,ke,I.line,'del'); ex.oblige(st,'del: hash',h==w.h,'pre',I.line); r=st.ghost['slot'] is not None; st.ghost['slot']=None; return [('ret',st,z3.BoolVal(r))]
        w.need_key(st,kb,ke,I.line,'del',it); ex.oblige(st,'del: hash',h==it[2],'pre',I.line); gadd(st,'del_',kb.obj)
        if st.ghost['slot'] is not None and st.ghost['slot'].obj==kb.obj: st.ghost['slot']=None
        return [('ret',st,z3.BoolVal(True))]
def call_lambda(w,ex,st,fn,cl,args):
    """run a functor passed to a contracted function, inside the contract (frames of the caller are put aside)"""
    frames=st.frames; st=st.fork(); fr=st.frames; st.frames=[]; loops=st.loops; st.loops=[]
    box=ex.new_struct(st,'closure',8*max(1,len(cl)))
    for i,v in enumerate(cl): ex.store(st,box.add(8*i),v,('ptr',))
    outs=ex.start(st,fn,[box]+args); res=[]
    for k,s,v in outs:
        if k!='ret': ex.oblige(s,'no-terminate',False,'ub'); continue
        s.frames=[f.clone() for f in fr]; s.loops=list(loops); s.pending=None; res.append((s,v))
    return res
def lambda_of(ex,fn,head):
    m=re.search(head+r'<(.*)>\(',fn.dem)
    if not m: raise Unsupported('functor of '+fn.dem[:80])
    t=m.group(1)
    for md in ex.mods:
        for n,f in md.fns.items():
            if not f.isdecl and f.dem.startswith(t+'::operator()'): return md.load_fn(f)
    raise Unsupported('functor body '+t[:80])
class RemoveIf(ItBase):
    """remove_if(pred): pred is called once for every entry, and exactly the entries it returned true for are unlinked"""
    def apply(s,ex,st,fn,a,I):
        w=s.w; lf=lambda_of(ex,fn,'remove_if'); kill_its(st); states=[st]
        for which in('slot','other'):
            nxt=[]
            for q in states:
                if which=='slot': p=q.ghost['slot']
                else:
                    p=w.item(q,'other%d'%next(sym._cnt),FA.base(fresh_name('OK'),8),w.other_K(q),z3.BitVec('other.h',32)); w.last_other=p
                if p is None: nxt.append(q); continue
                for r,v in call_lambda(w,ex,q,lf,a[1:],[p]):
                    for b in(True,False):
                        t=r.fork() if b else r; t.assume(v if b else z3.Not(v))
                        if not ex.feasible(t,z3.BoolVal(True)): continue
                        ex.oblige(t,'an item is destroyed iff its entry is removed',z3.BoolVal((p.obj in t.ghost['live'])!=b),'post',I.line)
                        if which=='slot' and b: t.ghost['slot']=None
                        if which=='other':
                            f=getattr(w,'f_'+p.obj.split('!')[0]); w.check_pred(ex,t,f,b,I.line)
                            t.ghost['live']=t.ghost['live']-{p.obj}
                        nxt.append(t)
            states=nxt
        return [('ret',q,None) for q in states]
def other_K(w,st):
    K=FreshBV('OK',64); st.assume([z3.UGE(K,BV(1)),z3.ULE(K,BV(250))]); return K
W.other_K=other_K; W.check_pred=lambda w,ex,st,f,b,line: None
# ---- allocator
class Alloc(ItBase):
    """alloc_or_evict(n,evict,on_free): a fresh block of at least n bytes; NULL only with evict off and then nothing changed;
    with evict on, live blocks may be reclaimed, each after on_free was called once on it while still intact"""
    def apply(s,ex,st,fn,a,I):
        w=s.w; n,ev=a[1],a[2]; ev=ev if isinstance(ev,z3.BoolRef) else bv2bool(ev)
        ex.oblige(st,'alloc: size is positive and fits a page',z3.And(n!=0,z3.ULE(n,w.page64-BV(8))),'pre',I.line)
        ex.oblige(st,'evictions only if enabled',z3.Implies(ev,w.ev),'pre',I.line)
        outs=[]
        def fresh(q,tag):
            p=ex.new_bytes(q,'fresh',n); q.ghost['live']=q.ghost['live']|{p.obj}; outs.append(('ret',q,p)); q.ghost['evicted']=tag
        t=st.fork(); t.assume(z3.Not(ev))
        if ex.feasible(t,z3.BoolVal(True)): outs.append(('ret',t,NULL))
        if ex.feasible(st,ev):
            lf=lambda_of(ex,fn,'alloc_or_evict')
            vict=[('other',None)]+([('slot',st.ghost['slot'])] if st.ghost['slot'] is not None else [])
            for tag,p in vict:
                q=st.fork(); q.assume(ev)
                if p is None: p=w.item(q,'victim%d'%next(sym._cnt),FA.base(fresh_name('VK'),8),w.other_K(q),z3.BitVec('victim.h',32))
                for r,_ in call_lambda(w,ex,q,lf,a[3:],[p]):
                    ex.oblige(r,'evicted item is unlinked from the index once',z3.BoolVal(r.ghost['del_'].count(p.obj)-q.ghost['del_'].count(p.obj)==1),'post',I.line)
                    k=r.ghost['cb'].count(p.obj)-q.ghost['cb'].count(p.obj)
                    ex.oblige(r,'eviction is reported to the callback exactly once',z3.If(w.cbset,z3.BoolVal(k==1),z3.BoolVal(k==0)),'post',I.line)
                    ex.oblige(r,'eviction handler does not release the block itself',z3.BoolVal(p.obj in r.ghost['live']),'post',I.line)
                    r.ghost['live']=r.ghost['live']-{p.obj}; r.objs.pop(p.obj,None); kill_its(r); fresh(r,tag)
        fresh(st,None)
        return outs
class Free(ItBase):
    """free(p): p must be a live block; it is gone afterwards"""
    def apply(s,ex,st,fn,a,I):
        p=a[1]; ok=isinstance(p,Ptr) and p.obj in st.ghost['live'] and p.c==0 and not p.terms
        ex.oblige(st,'free: a live block, exactly once',z3.BoolVal(bool(ok)),'pre',I.line)
        if ok: st.ghost['live']=st.ghost['live']-{p.obj}; st.objs.pop(p.obj,None)
        return [('ret',st,None)]
class Touch(ItBase):
    def apply(s,ex,st,fn,a,I):
        p=a[1]; ex.oblige(st,'touch: a live block',z3.BoolVal(isinstance(p,Ptr) and p.obj in st.ghost['live']),'pre',I.line); gadd(st,'touched',p.obj); return [('ret',st,None)]
# ---- number conversion (proved in C12)
class StrToInt(ItBase):
    def apply(s,ex,st,fn,a,I):
        w=s.w
        if 'unsigned long cachelot::str_to_int<unsigned long' not in fn.dem: raise Unsupported('str_to_int instantiation '+fn.dem[:60])
        b,e=a[0],a[1]; sp=st.ghost['slot']
        ok=sp is not None and same_ptr(b,e) and b.obj==sp.obj
        ex.oblige(st,'number is parsed from the stored value',z3.BoolVal(bool(ok)),'pre',I.line)
        if ok: ex.oblige(st,'number is parsed from exactly the stored value',z3.And(b.off()==BV(w.HDR)+w.K,e.off()-b.off()==z3.ZeroExt(32,w.f(st,sp,'m_value_length'))),'pre',I.line)
        t=st.fork(); isn=z3.Bool('is_number'); st.assume(isn); t.assume(z3.Not(isn)); x=mkexc(ex,t,SYSERR,code=FreshBV('numerr',32)); t.assume(z3.Or(x['code']==2,x['code']==3))
        return [('ret',st,z3.BitVec('stored_number',64)),('throw',t,x)]
class IntToStr(ItBase):
    def apply(s,ex,st,fn,a,I):
        if 'cachelot::int_to_str<unsigned long, char*>(unsigned long' not in fn.dem: raise Unsupported('int_to_str instantiation '+fn.dem[:60])
        v,p=a; L=DECLEN(v); st.assume([z3.UGE(L,BV(1)),z3.ULE(L,BV(20))]); o=st.w(p.obj); ex.range_check(st,o,p,BV(20),'int_to_str',I.line)
        o.fields[0]=o.fields[0].copy(simp(p.off()),L,FA.fnarr(lambda i:DECB(v,i),8),BV(0)); return [('ret',st,L)]
class CreateItem(ItBase):
    """create_item as used by do_arithmetic; its own body is verified against the same outcomes (C02.create_item)"""
    def applies(s,ex,st,fn,a): return 'lambda' not in fn.dem
    def apply(s,ex,st,fn,a,I):
        w=s.w; _,kb,ke,h,vl,fl,ttl=a
        w.need_key(st,kb,ke,I.line,'create_item'); outs=[]; k64=simp(ke.off()-kb.off())
        fits=z3.And(z3.ULE(k64,BV(250)),z3.ULE(vl,w.page64-BV(8)),z3.ULE(BV(w.HDR)+k64+vl,w.page64-BV(8)))
        t=st.fork(); t.assume(z3.Not(fits))
        if ex.feasible(t,z3.BoolVal(True)): outs.append(('throw',t,mkexc(ex,t,SYSERR,code=BV(ERR['item_too_big'],32))))
        st.assume(fits)
        t=st.fork(); t.assume(z3.Not(w.ev)); outs.append(('throw',t,mkexc(ex,t,SYSERR,code=BV(ERR['out_of_memory'],32))))
        vs=[None,'other']+(['slot'] if st.ghost['slot'] is not None else [])
        for tag in vs:
            q=st.fork()
            if tag:
                q.assume(w.ev)
                if tag=='slot':
                    p=q.ghost['slot']; q.ghost['slot']=None; q.ghost['live']=q.ghost['live']-{p.obj}; q.objs.pop(p.obj,None); gadd(q,'del_',p.obj); gadd(q,'cb',p.obj)
                kill_its(q)
            q.ghost['evicted']=tag
            o=w.cl['m_newest_timestamp'][0]; ts=simp(ex.load(q,w.cache.add(o),('int',64))+1); ex.store(q,w.cache.add(o),ts,('int',64))
            n=simp(BV(w.HDR)+w.K+vl); p=ex.new_bytes(q,'fresh',n); ob=q.w(p.obj); ob.fields[0]=ob.fields[0].copy(BV(w.HDR),w.K,w.KB,BV(0))
            now=FreshBV('now',32); q.assume(z3.ULT(now,BV(UMAX,32)))
            for kf,x in dict(m_timestamp=ts,m_hash=h,m_value_length=z3.Extract(31,0,vl),m_expiration_time=deadline(now,ttl),m_opaque_flags=fl,m_key_length=simp(z3.Extract(7,0,w.K))).items(): ex.store(q,p.add(w.lay[kf][0]),simp(x),('int',8*FIELDS[kf]))
            q.ghost['live']=q.ghost['live']|{p.obj}; outs.append(('ret',q,p))
        return outs
# ---- common postconditions
def status(w,st):
    """(live at first reading, expired at last reading) of the stored item, as conditions for found / not found"""
    if not w.present: return z3.BoolVal(False),z3.BoolVal(True)
    n=st.ghost['nows']
    if not n: return z3.BoolVal(False),z3.BoolVal(False)
    d=w.f_old['m_expiration_time']; return z3.Not(w.expired(n[0],d)),w.expired(n[-1],d)
def check_found(w,st,found,what='found'):
    """found must imply a live item, not found must imply none: exact when the clock is read once"""
    live,dead=status(w,st); w.ex.oblige(st,what+' only if the key has a live item',z3.Implies(found,live)); w.ex.oblige(st,'not '+what+' only if the key has no live item',z3.Implies(z3.Not(found),dead))
def check_stats(w,st,incr):
    """incr: {counter: condition}; every other counter unchanged"""
    for k,s0 in w.s0.items():
        d=incr.get(k[6:]); want=s0 if d is None else (s0+z3.If(d,BV(1),BV(0)) if isinstance(d,z3.BoolRef) else s0+BV(int(d)))
        w.ex.oblige(st,'statistics '+k[6:],w.stat(st,k)==want)
def check_live(w,st):
    s=st.ghost['slot']; exp={s.obj} if s is not None else set()
    lv={o for o in st.ghost['live'] if not o.startswith('victim')}
    w.ex.oblige(st,'every item is linked or released, exactly once',z3.BoolVal(lv==exp))
def check_version(w,st,delta): w.ex.oblige(st,'version counter',w.fld(st,'m_newest_timestamp')==w.new0+BV(delta))
def same_item(w,st,p,name,B0,n,skip=()):
    """bytes of the item unchanged (except the named header fields)"""
    if p.obj not in st.objs: w.ex.oblige(st,name+' still live',False); return
    B=st.objs[p.obj].fields[0]; i=FreshBV('i',64); g=z3.ULT(i,n)
    for k in skip: o=w.lay[k][0]; g=z3.And(g,z3.Not(z3.And(z3.UGE(i,BV(o)),z3.ULT(i,BV(o+FIELDS[k])))))
    w.ex.oblige(st,name+' bytes unchanged',z3.Implies(g,B.sel(i)==B0.sel(i)))
def value_is(w,st,p,parts):
    """value of item p is the concatenation of parts [(FA,start,len)]"""
    B=st.objs[p.obj].fields[0]; at=simp(BV(w.HDR)+w.K); tot=BV(0)
    for j,(A,o,L) in enumerate(parts):
        i=FreshBV('i',64); w.ex.oblige(st,'value bytes of part %d'%j,z3.Implies(z3.ULT(i,L),B.sel(simp(at+tot+i))==A.sel(simp(o+i)))); tot=simp(tot+L)
    w.ex.oblige(st,'value length',z3.ZeroExt(32,w.f(st,p,'m_value_length'))==tot)
def worlds(c,name):
    for present in(False,True): yield W(c,'%s[%s]'%(name,'present' if present else 'absent'),present)
def slot_is(w,st,p,what): 
    s=st.ghost['slot']; w.ex.oblige(st,what,z3.BoolVal((s is None) if p is None else (s is not None and s.obj==p.obj)))
def T(b): return z3.BoolVal(bool(b))
def cover(w,n): w.ex.oblige(State(),'cover',T(n),'cover')
def bool_of(v): return v if isinstance(v,z3.BoolRef) else bv2bool(v)
OPF=['Cache::retrieve_item','Cache::replace_item_at','Cache::insert_item_at','Cache::ItemAutoDelete::~ItemAutoDelete','Cache::destroy_item','no_overflow_increment']
@target('CO.get','C02 C08 C19',TU,funcs=['Cache::do_get']+OPF[:1])
def co_get(c):
    for w in worlds(c,'do_get'):
        outs=w.ex.start(w.st,c.fn(C_+'do_get'),[w.cache,w.key,ptr_at(w.key,w.K),w.h]); cover(w,outs)
        for k,s,v in outs:
            if k!='ret': w.ex.oblige(s,'no-throw',False); continue
            hit=not v.isnull(); check_found(w,s,T(hit))
            w.ex.oblige(s,'returns exactly the stored item',T(not hit or (w.old is not None and v.obj==w.old.obj and v.c==0 and not v.terms)))
            slot_is(w,s,w.old if hit else None,'slot'); check_live(w,s); check_version(w,s,0)
            check_stats(w,s,dict(cmd_get=1,get_hits=int(hit),get_misses=int(not hit)))
            if hit: same_item(w,s,w.old,'stored item',w.B_old,w.n_old); w.ex.oblige(s,'hit refreshes recency',T(w.old.obj in s.ghost['touched']))
@target('CO.delete','C02 C08 C19',TU,funcs=['Cache::do_delete']+OPF[:1])
def co_del(c):
    for w in worlds(c,'do_delete'):
        outs=w.ex.start(w.st,c.fn(C_+'do_delete'),[w.cache,w.key,ptr_at(w.key,w.K),w.h]); cover(w,outs)
        for k,s,v in outs:
            if k!='ret': w.ex.oblige(s,'no-throw',False); continue
            v=bool_of(v); check_found(w,s,v); slot_is(w,s,None,'key is gone'); check_live(w,s); check_version(w,s,0); check_stats(w,s,dict(cmd_delete=1,delete_hits=v,delete_misses=z3.Not(v)))
@target('CO.touch','C02 C08 C19',TU,funcs=['Cache::do_touch']+OPF[:1])
def co_touch(c):
    for w in worlds(c,'do_touch'):
        ttl=z3.BitVec('ttl',32); outs=w.ex.start(w.st,c.fn(C_+'do_touch'),[w.cache,w.key,ptr_at(w.key,w.K),w.h,ttl]); cover(w,outs)
        for k,s,v in outs:
            if k!='ret': w.ex.oblige(s,'no-throw',False); continue
            v=bool_of(v); check_found(w,s,v); check_live(w,s); check_version(w,s,0); check_stats(w,s,dict(cmd_touch=1,touch_hits=v,touch_misses=z3.Not(v)))
            if s.ghost['slot'] is not None:
                w.ex.oblige(s,'slot kept iff found',v); slot_is(w,s,w.old,'slot'); same_item(w,s,w.old,'stored item',w.B_old,w.n_old,('m_expiration_time',))
                n=s.ghost['nows']; d=w.f(s,w.old,'m_expiration_time')
                w.ex.oblige(s,'deadline is replaced',z3.And(z3.UGE(d,deadline(n[0],ttl)),z3.ULE(d,deadline(n[-1],ttl)))); w.ex.oblige(s,'touch refreshes recency',T(w.old.obj in s.ghost['touched']))
            else: w.ex.oblige(s,'slot dropped iff not found',z3.Not(v))
def store_op(c,name,args=lambda w:[]):
    for w in worlds(c,name):
        w.arg=w.item(w.st,'arg',w.KB,w.K,w.h); B0=w.st.objs[w.arg.obj].fields[0]
        fn=c.fn(C_+name); sret=[]; extra=args(w)
        if len(fn.args)>2+len(extra): w.sret=w.ex.new_struct(w.st,'result',16); sret=[w.sret]
        outs=w.ex.start(w.st,fn,sret+[w.cache,w.arg]+extra); cover(w,outs)
        for k,s,v in outs: yield w,k,s,v
def arg_linked(w,s): slot_is(w,s,w.arg,'new item is the one found'); same_item(w,s,w.arg,'new item',w.B_arg,w.n_arg)
def unchanged(w,s,what='stored item'):
    """the key keeps its item, untouched; or it had none (or only an expired one)"""
    sl_=s.ghost['slot']
    if w.old is not None and sl_ is not None: slot_is(w,s,w.old,'slot'); same_item(w,s,w.old,what,w.B_old,w.n_old)
    else:
        slot_is(w,s,None,'nothing stored')
        if w.present: w.ex.oblige(s,'dropped only if expired',status(w,s)[1])
def on_throw(w,s,x,cmd,code=None):
    """exceptions: index growth failure only (bad_alloc), nothing stored"""
    w.ex.oblige(s,'only bad_alloc is thrown',T(x['type']==BADALLOC)); unchanged(w,s); check_live(w,s)
@target('CO.set','C02 C08 C19 C09',TU,funcs=['Cache::do_set']+OPF)
def co_set(c):
    for w,k,s,v in store_op(c,'do_set'):
        if k=='throw': on_throw(w,s,v,'set'); continue
        arg_linked(w,s); check_live(w,s); check_version(w,s,0); live,dead=status(w,s); d=bool_of(z3.BoolVal(True))
        e=w.stat(s,'cache.set_existing')==w.s0['cache.set_existing']+1
        w.ex.oblige(s,'counted as update only if the key had a live item',z3.Implies(e,live)); w.ex.oblige(s,'counted as insert only if it had none',z3.Implies(z3.Not(e),dead))
        check_stats(w,s,dict(cmd_set=1,set_new=z3.Not(e),set_existing=e))
@target('CO.add','C02 C08 C19 C09',TU,funcs=['Cache::do_add']+OPF)
def co_add(c):
    for w,k,s,v in store_op(c,'do_add'):
        if k=='throw': on_throw(w,s,v,'add'); continue
        v=bool_of(v); check_found(w,s,z3.Not(v),'refused'); check_live(w,s); check_version(w,s,0); check_stats(w,s,dict(cmd_add=1,add_stored=v,add_not_stored=z3.Not(v)))
        if s.ghost['slot'] is not None and s.ghost['slot'].obj==w.arg.obj: w.ex.oblige(s,'linked only if stored',v); arg_linked(w,s)
        else: w.ex.oblige(s,'kept only if refused',z3.Not(v)); slot_is(w,s,w.old if w.present else w.arg,'the live item stays'); w.present and same_item(w,s,w.old,'stored item',w.B_old,w.n_old)
@target('CO.replace','C02 C08 C19 C09',TU,funcs=['Cache::do_replace']+OPF)
def co_replace(c):
    for w,k,s,v in store_op(c,'do_replace'):
        if k=='throw': on_throw(w,s,v,'replace'); continue
        v=bool_of(v); check_found(w,s,v); check_live(w,s); check_version(w,s,0); check_stats(w,s,dict(cmd_replace=1,replace_stored=v,replace_not_stored=z3.Not(v)))
        if s.ghost['slot'] is not None and s.ghost['slot'].obj==w.arg.obj: w.ex.oblige(s,'linked only if replaced',v); arg_linked(w,s)
        else: w.ex.oblige(s,'not linked only if refused',z3.Not(v)); slot_is(w,s,None,'nothing stored')
@target('CO.cas','C09 C02 C08 C19',TU,funcs=['Cache::do_cas']+OPF)
def co_cas(c):
    cas=z3.BitVec('cas_unique',64)
    for w,k,s,v in store_op(c,'do_cas',lambda w:[cas]):
        if k=='throw': on_throw(w,s,v,'cas'); continue
        # libstdc++ stores tuple<bool,bool> with the head last: get<0> at offset 1, get<1> at offset 0
        found=bool_of(w.ex.load(s,w.sret.add(1),('int',8))); stored=bool_of(w.ex.load(s,w.sret,('int',8)))
        check_found(w,s,found); check_live(w,s); check_version(w,s,0)
        match=(w.f_old['m_timestamp']==cas) if w.present else z3.BoolVal(False)
        w.ex.oblige(s,'stored iff found and the version matches',stored==z3.And(found,match))
        check_stats(w,s,dict(cmd_cas=1,cas_stored=stored,cas_badval=z3.And(found,z3.Not(stored)),cas_misses=z3.Not(found)))
        sl_=s.ghost['slot']
        if sl_ is not None and sl_.obj==w.arg.obj: w.ex.oblige(s,'linked only if stored',stored); arg_linked(w,s)
        else: w.ex.oblige(s,'not stored',z3.Not(stored)); (w.ex.oblige(s,'kept iff live',found) if sl_ is not None else w.ex.oblige(s,'absent iff not found',z3.Not(found))); unchanged(w,s)
def extend(c,name,order):
    pre=name[3:]
    for w,k,s,v in store_op(c,name):
        if k=='throw':
            fits=z3.BoolVal(True); x=v; unchanged(w,s); check_live(w,s)
            if x['type']==SYSERR and x.get('code') is not None:
                tot=BV(w.HDR)+w.K+z3.ZeroExt(32,w.f_old['m_value_length'])+z3.ZeroExt(32,w.f_arg['m_value_length']) if w.present else BV(0); big=z3.UGT(tot,w.page64-BV(8))
                w.ex.oblige(s,'refused as too big iff it does not fit a page',z3.And(T(w.present),z3.If(big,x['code']==ERR['item_too_big'],x['code']==ERR['out_of_memory'])))
                slot_is(w,s,w.old if w.present else w.arg,'the old item stays intact'); check_stats(w,s,{'cmd_'+pre:1})
                w.ex.oblige(s,'failed only with a live item',status(w,s)[0])
            else: w.ex.oblige(s,'only bad_alloc otherwise',T(x['type']==BADALLOC))
            continue
        v=bool_of(v); check_found(w,s,v); check_live(w,s); check_stats(w,s,{'cmd_'+pre:1,pre+'_stored':v,pre+'_misses':z3.Not(v)})
        sl_=s.ghost['slot']
        if sl_ is None: w.ex.oblige(s,'nothing stored iff missing',z3.Not(v)); check_version(w,s,0); continue
        w.ex.oblige(s,'stored iff found',v)
        if not w.present: w.ex.oblige(s,'nothing is stored for a missing key',False); continue
        o=(w.B_old,simp(BV(w.HDR)+w.K),z3.ZeroExt(32,w.f_old['m_value_length'])); a=(w.B_arg,simp(BV(w.HDR)+w.K),z3.ZeroExt(32,w.f_arg['m_value_length']))
        value_is(w,s,sl_,[o,a] if order=='app' else [a,o])
        for f in('m_opaque_flags','m_expiration_time','m_hash','m_key_length'): w.ex.oblige(s,f[2:]+' kept',w.f(s,sl_,f)==w.f_old[f])
        ts=w.f(s,sl_,'m_timestamp'); w.ex.oblige(s,'new version is greater than all earlier ones',z3.And(z3.UGT(ts,w.new0),w.fld(s,'m_newest_timestamp')==ts))
        if w.f_old: w.ex.oblige(s,'nothing was evicted',T(not s.ghost['cb'] and not s.ghost['del_']))
EXF=['Cache::do_extend','Item::Item','Item::assign_compose','Item::set_expiration_time','Item::CalcSizeRequired']
@target('CO.append','C11 C02 C06 C08 C09 C19',TU,funcs=['Cache::do_append']+EXF+OPF)
def co_app(c): extend(c,'do_append','app')
@target('CO.prepend','C11 C02 C06 C08 C09 C19',TU,funcs=['Cache::do_prepend']+EXF+OPF)
def co_pre(c): extend(c,'do_prepend','pre')
def arith(c,name):
    op=name[3:]
    for w in worlds(c,name):
        w.ex.contracts[C_+'create_item']=CreateItem(w); delta=z3.BitVec('delta',64); num=z3.BitVec('stored_number',64)
        outs=w.ex.start(w.st,c.fn(C_+name),[w.cache,w.key,ptr_at(w.key,w.K),w.h,delta]) if not needs_sret(c.fn(C_+name)) else None
        if outs is None:
            r=w.ex.new_struct(w.st,'result',16); outs=w.ex.start(w.st,c.fn(C_+name),[r,w.cache,w.key,ptr_at(w.key,w.K),w.h,delta])
        cover(w,outs)
        for k,s,v in outs:
            check_live(w,s)
            if k=='throw':
                if v['type']==SYSERR:
                    unchanged(w,s)
                    if s.ghost['slot'] is not None: check_version(w,s,0)
                    w.ex.oblige(s,'fails only with a live item',status(w,s)[0]); slot_is(w,s,w.old,'the old item stays intact')
                else: w.ex.oblige(s,'only bad_alloc otherwise',T(v['type']==BADALLOC))
                w.ex.oblige(s,'command counted once',w.stat(s,'cache.cmd_'+op)==w.s0['cache.cmd_'+op]+1); continue
            if outs_sret(c.fn(C_+name)): found=bool_of(w.ex.load(s,r.add(8),('int',8))); res=w.ex.load(s,r,('int',64))
            else: res,found=v[0],bool_of(v[1])
            check_found(w,s,found); check_stats(w,s,{'cmd_'+op:1,op+'_hits':found,op+'_misses':z3.Not(found)})
            sl_=s.ghost['slot']
            if sl_ is None: w.ex.oblige(s,'nothing stored iff missing',z3.Not(found)); check_version(w,s,0); continue
            w.ex.oblige(s,'stored iff found',found)
            if not w.present: w.ex.oblige(s,'nothing is stored for a missing key',False); continue
            M=(1<<64)-1
            want=z3.If(z3.UGT(z3.ZeroExt(1,num)+z3.ZeroExt(1,delta),BV(M,65)),BV(M),num+delta) if op=='incr' else z3.If(z3.ULT(num,delta),BV(0),num-delta)
            w.ex.oblige(s,'result is exact and saturating',res==want)
            value_is(w,s,sl_,[(FA.fnarr(lambda i:DECB(want,i),8),BV(0),DECLEN(want))])
            for f in('m_opaque_flags','m_expiration_time','m_hash','m_key_length'): w.ex.oblige(s,f[2:]+' kept',w.f(s,sl_,f)==w.f_old[f])
            ts=w.f(s,sl_,'m_timestamp'); w.ex.oblige(s,'new version is greater than all earlier ones',z3.And(z3.UGT(ts,w.new0),w.fld(s,'m_newest_timestamp')==ts))
def needs_sret(fn): return len(fn.args)==6
outs_sret=needs_sret
@target('CO.incr','C10 C02 C08 C09 C19',TU,funcs=['Cache::do_incr','Cache::do_arithmetic','Item::assign_value','Item::set_expiration_time']+OPF)
def co_incr(c): arith(c,'do_incr')
@target('CO.decr','C10 C02 C08 C09 C19',TU,funcs=['Cache::do_decr','Cache::do_arithmetic','Item::assign_value','Item::set_expiration_time']+OPF)
def co_decr(c): arith(c,'do_decr')
@target('CO.create_item','C02 C03 C06 C08 C09 C10',TU,funcs=['Cache::create_item','Cache::create_item::lambda','Item::Item','Item::CalcSizeRequired'])
def co_create(c):
    for w in worlds(c,'create_item'):
        vl=z3.BitVec('value_length',64); fl=z3.BitVec('flags',16); ttl=z3.BitVec('ttl',32); KL=z3.BitVec('KL',64); w.st.assume(z3.ULE(KL,BV(1<<40)))
        # the requested key: any length; when short enough it is the operation's key
        kp=w.ex.new_bytes(w.st,'reqkey',KL); w.st.assume(z3.UGE(KL,BV(1))); KB=w.st.objs[kp.obj].fields[0]; w.st.objs[kp.obj].ro=True
        outs=w.ex.start(w.st,c.fn(C_+'create_item',lambda f:'lambda' not in f.dem),[w.cache,kp,ptr_at(kp,KL),w.h,vl,fl,ttl]); cover(w,outs)
        fits=z3.And(z3.ULE(vl,w.page64-BV(8)),z3.ULE(BV(w.HDR)+KL+vl,w.page64-BV(8)))
        for k,s,v in outs:
            if k=='throw':
                cd=v.get('code'); w.ex.oblige(s,'error is one of the documented ones',T(v['type']==SYSERR and cd is not None))
                if cd is None: continue
                w.ex.oblige(s,'error tells the reason',z3.If(z3.UGT(KL,BV(250)),cd==ERR['key_too_long'],z3.If(z3.Not(fits),cd==ERR['item_too_big'],z3.And(cd==ERR['out_of_memory'],z3.Not(w.ev)))))
                slot_is(w,s,w.old,'nothing changes'); check_live(w,s); check_version(w,s,0); check_stats(w,s,{})
                w.ex.oblige(s,'nothing was evicted',T(not s.ghost['cb'] and not s.ghost['del_'])); continue
            w.ex.oblige(s,'accepted only if it fits',z3.And(fits,z3.ULE(KL,BV(250)))); check_stats(w,s,{})
            if v.obj not in s.objs: w.ex.oblige(s,'returns the new item',False); continue
            B=s.objs[v.obj].fields[0]; i=FreshBV('i',64)
            w.ex.oblige(s,'key bytes',z3.Implies(z3.ULT(i,KL),B.sel(simp(BV(w.HDR)+i))==KB.sel(i)))
            nows=s.ghost['nows']
            for f,x in dict(m_hash=w.h,m_opaque_flags=fl,m_value_length=z3.Extract(31,0,vl),m_key_length=z3.Extract(7,0,KL),m_timestamp=w.new0+1).items(): w.ex.oblige(s,f[2:],w.f(s,v,f)==x)
            d=w.f(s,v,'m_expiration_time'); w.ex.oblige(s,'deadline',z3.Or([d==deadline(x,ttl) for x in nows]+[z3.And(ttl==0,d==UMAX)]))
            check_version(w,s,1)
            ev=s.ghost['evicted']; slot_is(w,s,None if ev=='slot' else w.old,'other items stay')
            lv={o for o in s.ghost['live'] if not o.startswith('victim')}; w.ex.oblige(s,'live items are the stored one and the new one',T(lv==({v.obj}|({s.ghost['slot'].obj} if s.ghost['slot'] is not None else set()))))
@target('CO.flush','C08 C02 C19',TU,funcs=['Cache::do_flush_all','Cache::do_flush_all::lambda'])
def co_flush(c):
    for w in worlds(c,'do_flush_all'):
        w.check_pred=lambda ex,t,f,b,line:(ex.oblige(t,'another item is removed only if expired',z3.Implies(T(b),w.expired(t.ghost['nows'][-1],f['m_expiration_time']))),ex.oblige(t,'another item is kept only if live',z3.Implies(T(not b),z3.Not(w.expired(t.ghost['nows'][0],f['m_expiration_time'])))))
        outs=w.ex.start(w.st,c.fn(C_+'do_flush_all',lambda f:'lambda' not in f.dem),[w.cache]); cover(w,outs)
        for k,s,v in outs:
            if k!='ret': w.ex.oblige(s,'no-throw',False); continue
            check_live(w,s); check_version(w,s,0); check_stats(w,s,dict(cmd_flush=1))
            if w.present:
                if s.ghost['slot'] is None: w.ex.oblige(s,'removed only if expired',status(w,s)[1])
                else: w.ex.oblige(s,'kept only if live',status(w,s)[0]); unchanged(w,s)
@target('CO.publish','C19',TU,funcs=['Cache::publish_stats'])
def co_pub(c):
    for w in worlds(c,'publish_stats'):
        outs=w.ex.start(w.st,c.fn(C_+'publish_stats'),[w.cache]); cover(w,outs)
        for k,s,v in outs:
            if k!='ret': w.ex.oblige(s,'no-throw',False); continue
            w.ex.oblige(s,'item count published is the number of stored entries',w.stat(s,'cache.curr_items')==z3.ZeroExt(32,z3.BitVec('dict.size',32)))
            w.ex.oblige(s,'capacity published',w.stat(s,'cache.hash_capacity')==z3.ZeroExt(32,z3.BitVec('dict.capacity',32)))
            w.ex.oblige(s,'expansion published',bool_of(w.ex.load(s,Ptr(STATS,w.sl['cache.hash_is_expanding'][0]),('int',8)))==z3.Bool('dict.expanding'))
            for kk in w.s0:
                if kk not in('cache.curr_items','cache.hash_capacity'): w.ex.oblige(s,'statistics '+kk[6:],w.stat(s,kk)==w.s0[kk])
            slot_is(w,s,w.old,'nothing else changes')
