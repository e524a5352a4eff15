"""C01: dict (two tables during incremental expansion) as an exact map, over the table contracts of c01_table."""
from api import *
from models import *
from c01_table import *
MX=z3.Function('MX',S32,S32)        # max_size() of a table with this mask
def mx_facts(m):
    """lemma C01.max_size for capacity m+1"""
    m2=simp(2*m+1); return [z3.ULE(MX(m),m),z3.Implies(z3.ULE(m,BV((1<<30)-1,32)),z3.And(z3.UGE(MX(m2),2*MX(m)),z3.UGT(MX(m2),MX(m)),z3.ULE(MX(m2),m2)))]
BND=z3.Function('BND',S32,S32,S64)  # bound on the number of entries while expanding: M + (M-remaining)/512
def bnd_def(M,r): return z3.ZeroExt(32,M)+z3.LShR(z3.ZeroExt(32,M)-z3.ZeroExt(32,r),9)
def bnd_facts(M,a,b,B=None):
    B=B or BND; g=z3.And(z3.ULE(b,a),z3.ULE(a,M)); Z=lambda x:z3.ZeroExt(32,x)
    return [z3.Implies(g,z3.ULE(B(M,a),B(M,b))),z3.Implies(z3.And(g,z3.UGE(a-b,512)),z3.ULT(B(M,a),B(M,b)))]+[z3.Implies(z3.ULE(x,M),z3.And(z3.If(M==0,B(M,x)==0,z3.ULT(B(M,x),2*Z(M))),z3.UGE(B(M,x),Z(M)))) for x in(a,b)]
@target('C01.load_bound','C01',TU,funcs=['(lemma)'])
def lbound(c):
    ex=c.ex('load bound lemma'); M,a,b=z3.BitVecs('M a b',32)
    x,y=z3.BitVecs('x y',64); sh_=lambda v:z3.LShR(v,9); mono=lambda x,y:z3.Implies(z3.ULE(x,y),z3.ULE(sh_(x),sh_(y))); step=lambda x,y:z3.Implies(z3.And(z3.ULE(x,y),z3.UGE(y-x,512)),z3.ULT(sh_(x),sh_(y)))
    ex.oblige(State(),'dividing keeps the order',mono(x,y)); ex.oblige(State(),'512 more is one more after division',step(x,y))
    Z=lambda v:z3.ZeroExt(32,v); u,v=Z(M)-Z(a),Z(M)-Z(b); su,sv=z3.BitVecs('su sv',64); D=lambda m,r:Z(m)+(su if r is a else sv); g=z3.And(z3.ULE(b,a),z3.ULE(a,M))
    st=State(); ex.cut(st,'order',z3.Implies(g,z3.ULE(u,v))); ex.cut(st,'difference',z3.Implies(z3.And(g,z3.UGE(a-b,512)),z3.UGE(v-u,512))); ex.cut(st,'small',z3.Implies(g,z3.And(z3.ULE(sh_(u),BV(1<<32)),z3.ULE(sh_(v),BV(1<<32)))))
    q=State(); q.assume([z3.Implies(g,z3.ULE(u,v)),z3.Implies(z3.And(g,z3.UGE(a-b,512)),z3.UGE(v-u,512)),z3.Implies(g,z3.And(z3.ULE(su,BV(1<<32)),z3.ULE(sv,BV(1<<32))))]); q.assume([z3.Implies(z3.ULE(u,v),z3.ULE(su,sv)),z3.Implies(z3.And(z3.ULE(u,v),z3.UGE(v-u,512)),z3.ULT(su,sv))])
    F=bnd_facts(M,a,b,D)
    for i in(0,1): ex.oblige(q,'fact %d'%i,F[i])            # with su,sv for the quotients of u,v
    F=bnd_facts(M,a,b,bnd_def)
    for i in(2,3): ex.oblige(State(),'fact %d'%i,F[i])
@target('C01.max_size','C01',TU,funcs=['hash_table::max_size'])
def maxs(c):
    lay=c.layout('hash_table',None,True); M=[]; ex=c.ex('hash_table::max_size')
    for k in range(32):
        st=State(); t=Tab(c,ex,st,'tbl%d'%k,lay,BV((1<<k)-1,32)); outs=ex.start(st,c.fn(H_+'max_size'),[t.p])
        ok=len(outs)==1 and outs[0][0]=='ret' and isc(simp(outs[0][2])); ex.oblige(State(),'a constant per capacity',ok)
        if not ok: return
        M.append(simp(outs[0][2]).as_long()); ex.oblige(State(),'max_size < capacity (capacity 2^%d)'%k,M[k]<(1<<k))
        if k: ex.oblige(State(),'doubling the capacity at least doubles max_size (2^%d)'%k,M[k]>=2*M[k-1] and M[k]>M[k-1])
class CMax:
    """max_size() (C01.max_size)"""
    def apply(s,ex,st,fn,a,I):
        t=tab_of(ex,a[0],st)
        if t is None: return NotImplemented
        st.assume(mx_facts(t.mask)); return [('ret',st,MX(t.mask))]
class CCtor:
    """hash_table(capacity) (C01.ctor): empty, or not ok()"""
    def __init__(s,c): s.c=c
    def apply(s,ex,st,fn,a,I):
        p,cap=a; cap=simp(cap); ex.oblige(st,'hash_table pre: capacity is a power of two',z3.And(cap!=0,cap&(cap-1)==0),'pre',I.line); lay=s.c.layout('hash_table',None,True)
        n=st.fork()
        for f,v,T in(('m_size',BV(0,32),('int',32)),('m_capacity',cap,('int',32)),('mask',simp(cap-1),('int',32)),('m_hashes',NULL,('ptr',)),('m_entries',NULL,('ptr',))): ex.store(n,p.add(lay[f][0]),v,T)
        t=Tab(s.c,ex,st,fresh_name('T'),lay,simp(cap-1),at=p); set_size(t,st,BV(0,32)); st.ghost[t.g('IN')]=FA.fnarr(lambda k:BV(0,1),1,64); st.w(t.h.obj).fields[0]=FA.fnarr(lambda q:BV(0,32),32,32); st.ghost[t.g('perm')]=None
        return [('ret',st,None),('ret',n,None)]
class CDtor:
    def apply(s,ex,st,fn,a,I):
        t=tab_of(ex,a[0],st)
        if t is not None:
            for o in(t.h.obj,t.e.obj): st.objs.pop(o,None)
        return [('ret',st,None)]
class DW:
    """a dict in one of its two modes"""
    def __init__(d,c,name,exp,contracts={}):
        d.c=c; d.exp=exp; ex=d.ex=c.ex(name,contracts=dict(BASE_CON,**TABLE_CON)); ex.contracts.update({H_+'put':CPut(),H_+'del':CDel(),H_+'get':CGet(True),H_+'contains':CGet(False),H_+'max_size':CMax(),H_+'hash_table':CCtor(c),H_+'~hash_table':CDtor()}); ex.contracts.update(contracts)
        d.lay=c.layout('dict',None,True); lay=c.layout('hash_table',None,True); st=d.st=State(); d.p=ex.new_struct(st,'dict',d.lay['']); pm=z3.BitVec('P.mask',32)
        S=None
        if exp: S=Tab(c,ex,st,'S',lay); pm=simp(2*S.mask+1); st.assume(z3.ULE(S.mask,BV((1<<30)-1,32)))
        P=Tab(c,ex,st,'P',lay,pm); d.P0=P; d.S0=S; d.hp=z3.BitVec('hashpower',32); d.xp=z3.BitVec('expand_pos',32) if exp else BV(0,32)
        for f,v,T in(('m_primary_tbl',P.p,('ptr',)),('m_secondary_tbl',S.p if S else NULL,('ptr',)),('m_hashpower',d.hp,('int',32)),('m_expand_pos',d.xp,('int',32))): ex.store(st,d.p.add(d.lay[f][0]),v,T)
        for t in [P]+([S] if S else []): st.ghost[t.g('perm')]=None; st.assume(A1lite(t,st).schema()); st.assume(keys(t,st).schema())
        st.assume(mx_facts(P.mask)); 
        if S: st.assume(mx_facts(S.mask))
        if S: d.ss0=S.size(st); st.assume(bnd_facts(MX(S.mask),d.ss0,d.ss0))
        d.IN,d.VAL=d.union(st); d.dom=st.fork()
        for n,f in d.inv(st): st.assume(f.schema() if isinstance(f,Forall) else f)
        d.IN_roots=[x for t in d.tabs(st) for x in t.map(st)[0].roots()]
        ex.trusted.add('fewer than 2^31 slots: m_hashpower < 31 (a dict of 2^31 slots would need 24 GiB)')
    def fld(d,st,f,T=('int',32)): return d.ex.load(st,d.p.add(d.lay[f][0]),T)
    def prim(d,st):
        p=d.fld(st,'m_primary_tbl',('ptr',)); return tab_of(d.ex,p,st) if p.obj is not None else None
    def sec(d,st):
        p=d.fld(st,'m_secondary_tbl',('ptr',)); return tab_of(d.ex,p,st) if p.obj is not None else None
    def tabs(d,st): return [t for t in(d.prim(st),d.sec(st)) if t is not None]
    def union(d,st):
        P,S=d.prim(st),d.sec(st); a,b=P.map(st)
        if S is None: return a,b
        e,f=S.map(st)
        i=FA.fnarr(lambda k:z3.If(z3.Or(a.sel(k)==1,e.sel(k)==1),BV(1,1),BV(0,1)),1,64); v=FA.fnarr(lambda k:z3.If(e.sel(k)==1,f.sel(k),b.sel(k)),64,64); return i,v
    def roots(d,st): return [x for t in d.tabs(st) for a in t.map(st) for x in a.roots()]+[x for a in(d.IN,d.VAL) for x in fnroots(a)]
    def total(d,st):
        P,S=d.prim(st),d.sec(st); n=z3.ZeroExt(32,P.size(st)); return n+z3.ZeroExt(32,S.size(st)) if S else n
    def room(d,st,k=1):
        """there is room for k more entries before the next expansion step"""
        P,S=d.prim(st),d.sec(st)
        if S is None: return z3.ULE(P.size(st)+k,MX(P.mask)) if k else z3.ULE(P.size(st),MX(P.mask))
        return z3.ULE(d.total(st)+k,BND(MX(S.mask),S.size(st)))
    def inv(d,st,base=True):
        P,S=d.prim(st),d.sec(st); r=[('load bound',d.room(st,0)),('sizes',z3.ULE(P.size(st),P.mask))]
        hp=d.fld(st,'m_hashpower'); r.append(('hash power',z3.And(z3.ULT(hp,31),P.mask+1==BV(1,32)<<hp)))
        if S is not None:
            xp=d.fld(st,'m_expand_pos'); H=S.H(st); a,_=P.map(st); e,_=S.map(st)
            r+=[('capacities',P.mask==2*S.mask+1),('secondary size',z3.And(z3.ULE(S.size(st),MX(S.mask)),z3.ULE(d.total(st),z3.ZeroExt(32,P.mask)))),('expand position',z3.ULE(xp,S.mask+1)),('already moved slots are empty',Forall([S32],lambda q:z3.Implies(z3.And(z3.ULE(q,S.mask),z3.ULT(q,xp)),H.sel(q)==0),S.trig(st),'moved')),
                ('no key in both tables',Forall([S64],lambda k:z3.Not(z3.And(a.sel(k)==1,e.sel(k)==1)),a.roots()+e.roots()+['KIDS'],'disjoint'))]
        return r
    def oblige_inv(d,st,what='dict invariant'):
        if d.S0 is not None and d.sec(st) is d.S0: st.assume(bnd_facts(MX(d.S0.mask),d.ss0,d.S0.size(st)))
        for n,f in d.inv(st): d.ex.oblige(st,what+': '+n,f)
    def check_map(d,st,IN=None,VAL=None,what='the map is unchanged'):
        IN=d.IN if IN is None else IN; VAL=d.VAL if VAL is None else VAL; A,B=d.union(st); k=z3.BitVec('anykey',64); d.ex.oblige(st,what+': keys',(A.sel(k)==1)==(IN.sel(k)==1)); d.ex.oblige(st,what+': values',z3.Implies(IN.sel(k)==1,B.sel(k)==VAL.sel(k)))
    def shape(d,st):
        """the table pointers are as they must be; returns False if not"""
        P=d.prim(st); sp=d.fld(st,'m_secondary_tbl',('ptr',)); ok=P is not None and P.h.obj in st.objs and (sp.isnull() or (d.sec(st) is not None and d.sec(st).h.obj in st.objs and d.sec(st) is not P))
        d.ex.oblige(st,'the dict owns its tables',ok); return ok
    def final(d,st,IN=None,VAL=None,what='the map is unchanged'):
        if not d.shape(st): return False
        d.check_map(st,IN,VAL,what); d.oblige_inv(st); return True
def fnroots(a): return a.roots()
def keys(t,st):
    IN,VAL=t.map(st); return Forall([S64],lambda k:z3.Implies(IN.sel(k)==1,KID(VAL.sel(k))==k),IN.roots()+VAL.roots(),'keys')
def fresh_maps(d,st,IN,VAL):
    """entries moved between the tables: same union IN/VAL, still disjoint"""
    T=d.tabs(st)
    for t in T:
        st.ghost[t.g('IN')]=FA.base(fresh_name(t.name+'.IN'),1,64); st.ghost[t.g('VAL')]=FA.base(fresh_name(t.name+'.VAL'),64,64); new_slots(t,st); st.assume(keys(t,st).schema())
    st.assume(union_is(d,st,IN,VAL).schema())
def union_is(d,st,IN,VAL):
    T=d.tabs(st); a,b=T[0].map(st); R=a.roots()+b.roots()+IN.roots()+VAL.roots()
    if len(T)==1: return Forall([S64],lambda k:z3.And((a.sel(k)==1)==(IN.sel(k)==1),z3.Implies(IN.sel(k)==1,b.sel(k)==VAL.sel(k))),R,'union')
    e,f=T[1].map(st); R+=e.roots()+f.roots()
    return Forall([S64],lambda k:z3.And(z3.Or(a.sel(k)==1,e.sel(k)==1)==(IN.sel(k)==1),z3.Not(z3.And(a.sel(k)==1,e.sel(k)==1)),z3.Implies(a.sel(k)==1,b.sel(k)==VAL.sel(k)),z3.Implies(e.sel(k)==1,f.sel(k)==VAL.sel(k))),R,'union')
# ---------------------------------------------------------------- rehash_some
def inner(fr,header):
    return any(header!=h and header in b for h,b in fr.fn.loops.items())
class Move(LoopSpec):
    name='rehash'
    def __init__(s,d): s.d=d
    def match(s,ex,st,fr,header): return fr.fn.qual==D_+'rehash_some' and not inner(fr,header)
    def bindings(s,ex,st,header,body):
        d=s.d; n0=d.sec(st).size(st); s.n0=n0; s.p0=d.prim(st).size(st); B=z3.If(z3.ULE(n0,512),n0,BV(512,32)); s.B=B; L=u32_locals(st)
        up=[(n,o,'up') for n,o,v in L if isc(simp(v)) and simp(v).as_long()==0]; dn=[(n,o,'down') for n,o,v in L if equal(ex,st,v,B)]
        return [{'c':o,'dir':k} for n,o,k in sorted(up,key=rank('elem'))+dn]
    def havoc_ghost(s,lv): fresh_maps(s.d,lv.st,s.d.IN,s.d.VAL); lv.st.ghost['u']=FreshBV('used_slot',32)
    def moved(s,lv): c=val(lv,'c'); return c if lv.bind['dir']=='up' else s.B-c
    def inv(s,lv):
        d=s.d; st=lv.st; P,S=d.prim(st),d.sec(st); xp=d.fld(st,'m_expand_pos'); H=S.H(st); m=s.moved(lv)
        return [('progress',z3.And(z3.ULE(m,s.B),S.size(st)==s.n0-m,P.size(st)==s.p0+m)),('expand position',z3.ULE(xp,S.mask+1)),('already moved slots are empty',Forall([S32],lambda q:z3.Implies(z3.And(z3.ULE(q,S.mask),z3.ULT(q,xp)),H.sel(q)==0),S.trig(st),'moved')),
                ('every entry is in exactly one table',union_is(d,st,d.IN,d.VAL)),('slots hold stored items (secondary)',A1lite(S,st)),('keys',keys(S,st)),('keys (primary)',keys(P,st))]
    def lemmas(s,lv):
        st=lv.st; S=s.d.sec(st); u=st.ghost['u']; return [z3.Implies(z3.UGT(S.size(st),0),z3.And(z3.ULE(u,S.mask),S.H(st).sel(u)!=0)),z3.Implies(S.size(st)==0,S.map(st)[0].sel(z3.BitVec('anykey',64))!=1)]     # counting
    def variant(s,lv): return s.B-s.moved(lv)
class Skip(LoopSpec):
    """skip empty slots: everything before the next used slot is empty"""
    name='skip'; havoc_ghost=None
    def __init__(s,d): s.d=d
    def match(s,ex,st,fr,header): return fr.fn.qual==D_+'rehash_some' and inner(fr,header)
    def inv(s,lv):
        d=s.d; st=lv.st; S=d.sec(st); xp=d.fld(st,'m_expand_pos'); H=S.H(st); u=st.ghost['u']
        return [('a used slot is ahead',z3.And(z3.ULE(u,S.mask),H.sel(u)!=0,z3.ULE(xp,u))),('skipped slots are empty',Forall([S32],lambda q:z3.Implies(z3.And(z3.ULE(q,S.mask),z3.ULT(q,xp)),H.sel(q)==0),S.trig(st),'moved'))]
    def variant(s,lv): return lv.st.ghost['u']-s.d.fld(lv.st,'m_expand_pos')
@target('C01.rehash_some','C01',TU,funcs=['dict::rehash_some','dict::end_expand'])
def rehash(c):
    d=DW(c,'dict::rehash_some',True); ex,st=d.ex,d.st; P,S=d.P0,d.S0; n0,p0=S.size(st),P.size(st); st.ghost['u']=FreshBV('used_slot',32); tot0=d.total(st)
    ex.loopspecs=[Move(d),Skip(d)]; ends=set(); ex.trusted.add('counting: a table with entries has a used slot')
    for k,s,v in ex.start(st,c.fn(D_+'rehash_some'),[d.p]):
        if k!='ret': ex.oblige(s,'no-throw',False); continue
        if not d.shape(s): continue
        ex.cut(s,'no entry is lost or doubled (sizes)',d.total(s)==tot0)
        if d.sec(s) is None: ex.cut(s,'fits below the threshold of the primary table',z3.ULE(tot0,2*z3.ZeroExt(32,MX(S.mask))))
        else: ex.cut(s,'secondary shrinks',z3.ULE(S.size(s),n0))
        d.final(s); ends.add(d.sec(s) is None); ex.oblige(s,'the primary table stays',d.prim(s) is P); ex.oblige(s,'hash power unchanged',d.fld(s,'m_hashpower')==d.hp)
        if d.sec(s) is None: ex.oblige(s,'ends only when everything was moved',z3.And(P.size(s)==p0+n0,d.fld(s,'m_expand_pos')==0))
        else: ex.oblige(s,'moves a full batch of 512 otherwise',z3.And(S.size(s)==n0-512,z3.UGE(n0,512),P.size(s)==p0+512,S.size(s)!=0))
    ex.oblige(State(),'cover',ends=={True,False},'cover')
class CRehash:
    """rehash_some (C01.rehash_some)"""
    def __init__(s,d=None): s.d=d
    def apply(s,ex,st,fn,a,I):
        d=s.d; P,S=d.prim(st),d.sec(st)
        ex.oblige(st,'rehash_some pre: expansion in progress',P is not None and S is not None,'pre',I.line)
        if P is None or S is None: return []
        st.assume(bnd_facts(MX(S.mask),d.ss0 if S is d.S0 else S.size(st),S.size(st))); st.assume(mx_facts(S.mask))
        for n,f in d.inv(st): ex.oblige(st,'rehash_some pre: '+n,f,'pre',I.line)
        IN,VAL=d.union(st); n0,p0=S.size(st),P.size(st); fresh_maps(d,st,IN,VAL); t=st.fork()
        # finished
        set_size(P,st,p0+n0); a_,_=S.map(st)
        for o in(S.h.obj,S.e.obj): st.objs.pop(o,None)
        ex.store(st,d.p.add(d.lay['m_secondary_tbl'][0]),NULL,('ptr',)); ex.store(st,d.p.add(d.lay['m_expand_pos'][0]),BV(0,32),('int',32))
        st.assume(union_is(d,st,IN,VAL).schema()); P_=P.mask
        # not finished: one full batch moved
        t.assume([z3.UGT(n0,512)]+bnd_facts(MX(S.mask),n0,simp(n0-512))); set_size(P,t,p0+512); set_size(S,t,n0-512); xp=FreshBV('expand_pos',32); ex.store(t,d.p.add(d.lay['m_expand_pos'][0]),xp,('int',32)); H=S.H(t)
        t.assume(z3.ULE(xp,S.mask+1)); t.assume(Forall([S32],lambda q:z3.Implies(z3.And(z3.ULE(q,S.mask),z3.ULT(q,xp)),H.sel(q)==0),S.trig(t),'moved').schema())
        return [('ret',st,None),('ret',t,None)]
# ---------------------------------------------------------------- dict operations
def dw(c,name,exp,**kw):
    cr=CRehash(); d=DW(c,'dict::'+name+(' (expanding)' if exp else ''),exp,{D_+'rehash_some':cr}); cr.d=d; d.kid=None
    d.ka,d.kid=key_arg(d.st); d.h=z3.BitVec('hash',32); d.st.assume(sh(d.h)==SHK(d.kid)); return d
def as_bool(v): return v if z3.is_bool(v) else bv2bool(v)
@target('C01.dict.entry_for','C01 C02',TU,funcs=['dict::entry_for','dict::search_primary','dict::search_secondary','dict::begin_expand','dict::iter'])
def d_entry(c):
    for exp in(False,True):
        for ro in(0,1):
            d=dw(c,'entry_for'+(' readonly' if ro else ''),exp); ex,st=d.ex,d.st; r=ex.new_struct(st,'ret',24); n=0; st.assume(z3.ULT(d.hp,30))
            for k,s,v in ex.start(st,c.fn(D_+'entry_for'),[r,d.p]+d.ka+[d.h,z3.BoolVal(bool(ro))]):
                n+=1
                if k=='throw':
                    ex.oblige(s,'throws only when it needs a bigger table for an absent key',z3.And(z3.BoolVal(not ro and not exp),d.IN.sel(d.kid)!=1)); d.final(s); continue
                if not d.final(s): continue
                P=d.prim(s); f=bv2bool(ex.load(s,r.add(16),('int',8))); tp=ex.load(s,r,('ptr',)); pos=ex.load(s,r.add(8),('int',32)); a,b=P.map(s)
                ex.oblige(s,'found iff the key is stored',f==(d.IN.sel(d.kid)==1)); ex.oblige(s,'the iterator is on the primary table',z3.And(z3.BoolVal(tp.obj==P.p.obj and tp.c==0),z3.ULE(pos,P.mask)))
                ex.oblige(s,'found: the iterator refers to the entry of the key',z3.Implies(f,z3.And(a.sel(d.kid)==1,P.H(s).sel(pos)!=0,P.E(s).sel(pos)==d.VAL.sel(d.kid))))
                pm=s.ghost.get(P.g('perm')); q=s.fork(); q.assume(z3.Not(f))
                if ex.feasible(q,z3.BoolVal(True)):
                    ok=pm is not None and pm[0] is P.H(s) and pm[1] is P.E(s); ex.oblige(q,'not found: a current insertion point',z3.And(pm[2]==d.kid,pm[3]==pos) if ok else False)
                    if not ro: ex.oblige(q,'not found: there is room for one more entry',d.room(q,1))
            ex.oblige(State(),'cover',n>0,'cover')
def it_arg(d,pos):
    """dict::iterator by value: {table*, pos} in two registers"""
    return [d.P0.p,pos]
@target('C01.dict.insert','C01',TU,funcs=['dict::insert','dict::iterator::iterator'])
def d_ins(c):
    for exp in(False,True):
        d=dw(c,'insert',exp); ex,st=d.ex,d.st; pos=z3.BitVec('pos',32); V=z3.BitVec('V',64); P=d.P0; st.assume([KID(V)==d.kid,d.IN.sel(d.kid)!=1,z3.ULE(pos,P.mask),d.room(st,1)]); st.ghost[P.g('perm')]=(P.H(st),P.E(st),d.kid,pos)
        for k,s,v in ex.start(st,c.fn(D_+'insert'),[d.p]+it_arg(d,pos)+d.ka+[d.h,raw(V)]):
            if k!='ret': ex.oblige(s,'no-throw',False); continue
            d.final(s,d.IN.store(d.kid,BV(1,1)),d.VAL.store(d.kid,V),'afterwards the map is the old one plus the new pair'); tp,ps=v[0],v[1]; ps=ps if ps.size()==32 else z3.Extract(31,0,ps)
            ex.oblige(s,'the returned iterator refers to the new entry',z3.And(z3.BoolVal(tp.obj==P.p.obj),z3.ULE(ps,P.mask),P.H(s).sel(ps)!=0,P.E(s).sel(ps)==V))
@target('C01.dict.remove','C01',TU,funcs=['dict::remove'])
def d_rem(c):
    for exp in(False,True):
        d=dw(c,'remove',exp); ex,st=d.ex,d.st; pos=z3.BitVec('pos',32); P=d.P0; st.assume([z3.ULE(pos,P.mask),P.H(st).sel(pos)!=0,KID(P.E(st).sel(pos))==d.kid,z3.UGT(P.size(st),0)])
        for k,s,v in ex.start(st,c.fn(D_+'remove'),[d.p]+it_arg(d,pos)):
            if k!='ret': ex.oblige(s,'no-throw',False); continue
            d.final(s,d.IN.store(d.kid,BV(0,1)),d.VAL,'afterwards the map is the old one without the key')
@target('C01.dict.del','C01',TU,funcs=['dict::del'])
def d_del(c):
    for exp in(False,True):
        d=dw(c,'del',exp); ex,st=d.ex,d.st
        for k,s,v in ex.start(st,c.fn(D_+'del'),[d.p]+d.ka+[d.h]):
            if k!='ret': ex.oblige(s,'no-throw',False); continue
            d.final(s,d.IN.store(d.kid,BV(0,1)),d.VAL,'afterwards the map is the old one without the key'); ex.oblige(s,'true iff the key was stored',as_bool(v)==(d.IN.sel(d.kid)==1))
@target('C01.dict.query','C01',TU,funcs=['dict::get','dict::contains','dict::size','dict::empty','dict::capacity','dict::is_expanding'])
def d_query(c):
    for exp in(False,True):
        for name in('get','contains','size','empty','capacity','is_expanding'):
            d=dw(c,name,exp); ex,st=d.ex,d.st; r=ex.new_struct(st,'ret',16); st.objs[d.p.obj].ro=True; n=0; f=d.IN.sel(d.kid)==1; a={'get':[r,d.p]+d.ka+[d.h],'contains':[d.p]+d.ka+[d.h]}.get(name,[d.p])
            for k,s,v in ex.start(st,c.fn(D_+name),a):
                if k!='ret': ex.oblige(s,'no-throw',False); continue
                n+=1; d.check_map(s)
                if name=='get': ex.oblige(s,'found iff stored',bv2bool(ex.load(s,r.add(8),('int',8)))==f); ex.oblige(s,'value of the key',z3.Implies(f,simp(ex.load(s,r,('ptr',)).off())==d.VAL.sel(d.kid)))
                elif name=='contains': ex.oblige(s,'true iff stored',as_bool(v)==f)
                elif name=='size': ex.oblige(s,'the number of entries of both tables',z3.ZeroExt(32,v)==d.total(s))
                elif name=='empty': ex.oblige(s,'true iff there are no entries',as_bool(v)==(d.total(s)==0))
                elif name=='capacity': ex.oblige(s,'slots of the primary table',v==d.P0.mask+1)
                else: ex.oblige(s,'true iff there are two tables',as_bool(v)==z3.BoolVal(exp))
            ex.oblige(State(),'cover',n>0,'cover')
class CRemoveIf:
    """hash_table::remove_if (C01.remove_if): every entry is asked about at least once and is gone iff the last answer was true"""
    def apply(s,ex,st,fn,a,I):
        t=need_tab(ex,a[0],'remove_if',st); n=t.size(st); ex.oblige(st,'remove_if pre: table not full',z3.ULE(n,t.mask),'pre',I.line); IN,VAL=t.map(st); H0=t.H(st); L=FA.base(fresh_name('ANS'),1,64); L0=st.ghost['LAST']
        st.ghost['LAST']=FA.fnarr(lambda k:z3.If(IN.sel(k)==1,z3.ZeroExt(1,L.sel(k)),L0.sel(k)),2,64); st.ghost[t.g('IN')]=FA.fnarr(lambda k:z3.If(z3.And(IN.sel(k)==1,L.sel(k)==0),BV(1,1),BV(0,1)),1,64); new_slots(t,st); m=FreshBV('size',32); st.assume(z3.ULE(m,n)); set_size(t,st,m); H1=t.H(st)
        st.assume(Forall([S32],lambda q:z3.Implies(H0.sel(q)==0,H1.sel(q)==0),t.trig(st)+H0.roots(),'empties').schema()); return [('ret',st,None)]
@target('C01.dict.remove_if','C01',TU,funcs=['dict::remove_if'])
def d_remif(c):
    for exp in(False,True):
        d=dw(c,'remove_if',exp); ex,st=d.ex,d.st; st.ghost['LAST']=FA.fnarr(lambda k:BV(2,2),2,64); ex.contracts[H_+'remove_if']=CRemoveIf(); fn=c.fn(D_+'remove_if'); k_=z3.BitVec('anykey',64)
        if d.S0: ex.cut(st,'bound',bnd_facts(MX(d.S0.mask),d.ss0,d.ss0)[2])
        for k,s,v in ex.start(st,fn,[d.p,raw(FreshBV('cap',64))][:len(fn.args)]):
            if k!='ret': ex.oblige(s,'no-throw',False); continue
            L=s.ghost['LAST']; d.final(s,FA.fnarr(lambda q:z3.If(z3.And(d.IN.sel(q)==1,L.sel(q)==0),BV(1,1),BV(0,1)),1,64),d.VAL,'exactly the entries whose last answer was false are left'); ex.oblige(s,'every entry was asked about',z3.Implies(d.IN.sel(k_)==1,L.sel(k_)!=2))
class CClear:
    """hash_table::clear (C01.clear)"""
    def apply(s,ex,st,fn,a,I):
        t=need_tab(ex,a[0],'clear',st); set_size(t,st,BV(0,32)); st.ghost[t.g('IN')]=FA.fnarr(lambda k:BV(0,1),1,64); new_slots(t,st); return [('ret',st,None)]
@target('C01.dict.clear','C01',TU,funcs=['dict::clear'])
def d_clear(c):
    for exp in(False,True):
        d=dw(c,'clear',exp); ex,st=d.ex,d.st; ex.contracts[H_+'clear']=CClear()
        for k,s,v in ex.start(st,c.fn(D_+'clear'),[d.p]):
            if k!='ret': ex.oblige(s,'no-throw',False); continue
            d.final(s,FA.fnarr(lambda k:BV(0,1),1,64),d.VAL,'afterwards the map is empty'); ex.oblige(s,'size',d.total(s)==0); ex.oblige(s,'not expanding',d.sec(s) is None)
@target('C01.dict.ctor','C01',TU,funcs=['dict::dict','roundup_pow2','log2u','pow2','ispow2','bit::most_significant'])
def d_ctor(c):
    ex=c.ex('dict::dict',contracts={H_+'hash_table':CCtor(c),H_+'~hash_table':CDtor()}); st=State(); lay=c.layout('dict',None,True); n=z3.BitVec('initial',32); st.assume([n!=0,z3.ULE(n,BV(1<<30,32))]); p=ex.new_struct(st,'dict',lay['']); d=DW.__new__(DW); d.ex=ex; d.p=p; d.lay=lay; d.c=c; d.S0=None; got=0
    ex.trusted.add('initial dict size between 1 and 2^30')
    for k,s,v in ex.start(st,c.fn(D_+'dict'),[p,n]):
        if k=='throw': continue
        P=d.prim(s); ok=P is not None; ex.oblige(s,'owns a table',ok)
        if not ok: continue
        got+=1; s.assume(mx_facts(P.mask)); ex.oblige(s,'no second table',d.fld(s,'m_secondary_tbl',('ptr',)).isnull()); d.oblige_inv(s); k_=z3.BitVec('anykey',64); ex.oblige(s,'the map is empty',P.map(s)[0].sel(k_)!=1); ex.oblige(s,'at least the requested capacity',z3.ULE(n,P.mask+1)); ex.oblige(s,'at most twice the requested capacity',z3.ULE(P.mask,2*n-1))
    ex.oblige(State(),'cover',got>0,'cover')
