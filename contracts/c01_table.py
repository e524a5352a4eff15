"""C01: hash_table (Robin Hood) as an exact map. Keys are abstract identities KID(item); the invariant ties the arrays to an abstract map IN/VAL."""
from api import *
from models import *
import os
tu('cache','$VERIF/tu/cache.cpp'); tu('stats_cpp','$REPO/src/cachelot/stats.cpp')
TU='cache'
S32=z3.BitVecSort(32); S64=z3.BitVecSort(64); H_='cachelot::hash_table::'; D_='cachelot::dict::'
KBEG=z3.Function('KBEG',S64,S64); KEND=z3.Function('KEND',S64,S64)      # key range of an item
KIDS=z3.Function('KIDS',S64,S64,S64)                                   # identity of the bytes of a range
SHK=z3.Function('SHK',S64,S32)                                         # stored (non-zero) hash of a key
def KID(v): return KIDS(KBEG(v),KEND(v))
def sh(h): return z3.If(h==0,BV(1,32),h)
def nz(x): return x!=0
class EntryKey:
    """ItemDictEntry::key(): the key of the item the entry points to"""
    def apply(s,ex,st,fn,a,I):
        v=ex.load(st,a[0],('ptr',)); b=v.off() if v.obj is None else ex.ptr2int(v); b=simp(b); return [('ret',st,[raw(KBEG(b)),raw(KEND(b))])]
class KeyEq:
    """equality of byte ranges (C22): equal iff the identities are equal"""
    def apply(s,ex,st,fn,a,I):
        r=[]
        for p in a[-2:]: r.append(KIDS(*[simp(ex.load(st,p.add(o),('ptr',)).off()) for o in(0,8)]))
        return [('ret',st,r[0]==r[1])]
BASE_CON={'cachelot::cache::ItemDictEntry::key':EntryKey(),'std::equal_to::operator()':KeyEq(),'cachelot::slice::operator==':KeyEq()}
class GetDistance:
    """get_distance(pos,hash): slots from the home of hash forward to pos (proved by C01.get_distance)"""
    def apply(s,ex,st,fn,a,I):
        t=tab_of(ex,a[0],st)
        if t is None or len(a)!=3: return NotImplemented
        ex.oblige(st,'get_distance pre: position in range',z3.ULE(a[1],t.mask)); return [('ret',st,t.dist(a[1],a[2]))]
def tab_of(ex,p,st):
    for t in getattr(ex,'tabs',[]):
        if p.obj==t.p.obj and p.c==0 and not p.terms and t.g('IN') in st.ghost: return t
    return None
DIST={H_+'get_distance':GetDistance()}
class Tab:
    """one table object: arrays, abstract map, ghost position map"""
    def __init__(t,c,ex,st,name,lay,mask=None,at=None):
        t.c=c; t.ex=ex; t.name=name; t.lay=lay; t.mask=z3.BitVec(name+'.mask',32) if mask is None else mask; m=t.mask
        t.p=ex.new_struct(st,name,lay['']) if at is None else at; t.h=ex.new_arr(st,name+'.hashes',4,{0:FA.base(fresh_name(name+'.H'),32,32)},simp(z3.ZeroExt(32,m)+1),32); t.e=ex.new_arr(st,name+'.entries',8,{0:FA.base(fresh_name(name+'.E'),64,32)},simp(z3.ZeroExt(32,m)+1),32)
        t.size0=z3.BitVec(fresh_name(name+'.size'),32)
        for f,v,T in(('m_size',t.size0,('int',32)),('m_capacity',simp(m+1),('int',32)),('mask',m,('int',32)),('m_hashes',t.h,('ptr',)),('m_entries',t.e,('ptr',))): ex.store(st,t.p.add(lay[f][0]),v,T)
        t.limit(st); t.fresh_map(st); ex.tabs=getattr(ex,'tabs',[])+[t]
    def limit(t,st): m=t.mask; st.assume([m&(m+1)==0,z3.ULE(m,BV((1<<31)-1,32))])
    def g(t,k): return t.name+'.'+k
    def fresh_map(t,st):
        st.ghost[t.g('IN')]=FA.base(fresh_name(t.name+'.IN'),1,64); st.ghost[t.g('VAL')]=FA.base(fresh_name(t.name+'.VAL'),64,64); t.fresh_pos(st)
    def fresh_pos(t,st):
        st.ghost[t.g('POS')]=FA.base(fresh_name(t.name+'.POS'),32,64); st.ghost[t.g('touch')]=(); st.ghost[t.g('cnt')]=FreshBV(t.name+'.cnt',64)
    def H(t,st): return st.objs[t.h.obj].fields[0]
    def E(t,st): return st.objs[t.e.obj].fields[0]
    def size(t,st): return t.ex.load(st,t.p.add(t.lay['m_size'][0]),('int',32))
    def map(t,st): return st.ghost[t.g('IN')],st.ghost[t.g('VAL')]
    def pos(t,st):
        """ghost position map brought up to date with the slots written since"""
        P=st.ghost[t.g('POS')]; Hc,Ec=t.H(st),t.E(st)
        for p in st.ghost[t.g('touch')]:
            P=FA.fnarr((lambda P,hp,kp,p:lambda k:z3.If(z3.And(hp!=0,kp==k),p,P.sel(k)))(P,Hc.sel(p),KID(Ec.sel(p)),p),32,64)
        return P
    def hook(t,ex,st,obj,fo,idx,v):
        if obj==t.h.obj:
            old=t.H(st).sel(idx); v=ex.as_bv(v,32); one,zero=BV(1),BV(0)
            st.ghost[t.g('cnt')]=simp(st.ghost[t.g('cnt')]+z3.If(v!=0,one,zero)-z3.If(old!=0,one,zero))
        elif obj!=t.e.obj: return
        st.ghost[t.g('touch')]=st.ghost[t.g('touch')]+(idx,)
    # ---- formulas over given arrays
    def dist(t,p,h): return (p-h)&t.mask
    def trig(t,st): return t.H(st).roots()+t.E(st).roots()
    def R(t,st,skip=None):
        H=t.H(st); m=t.mask
        def f(p,q=None):
            if q is None: q=simp((p-1)&m)
            d=t.dist(p,H.sel(p)); g=[z3.ULE(p,m),H.sel(p)!=0,d!=0]
            if skip is not None: g.append(p!=skip)
            return z3.Implies(z3.And(g),z3.And(H.sel(q)!=0,z3.UGE(t.dist(q,H.sel(q)),d-1)))
        cs=[]
        for p in t.touched(st): cs+=[p,(simp((p+1)&m),z3.Implies(z3.ULE(p,m),f(simp((p+1)&m),p)))]     # lemma wrap
        return Forall([S32],f,t.trig(st),'R',cs)
    def wrap(t,p,hs=()):
        """instances of lemma C01.wrap for slot p and the hashes hs"""
        m=t.mask; n=simp((p+1)&m); r=[z3.Implies(z3.ULE(p,m),z3.And(simp((n-1)&m)==p,z3.ULE(n,m)))]
        for h in hs: r.append(z3.Implies(z3.ULE(p,m),t.dist(n,h)==(t.dist(p,h)+1)&m))
        return r
    def Rstar(t,st,p,j):
        """instance of the closure of R (lemma C01.rstar): walking back from an entry towards its home meets only entries at least as far"""
        H=t.H(st); m=t.mask
        return z3.Implies(z3.And(z3.ULE(p,m),H.sel(p)!=0,z3.ULE(j,t.dist(p,H.sel(p)))),z3.And(H.sel((p-j)&m)!=0,z3.UGE(t.dist((p-j)&m,H.sel((p-j)&m)),t.dist(p,H.sel(p))-j)))
    def touched(t,st):
        out=[]
        for p in st.ghost[t.g('touch')]:
            p=simp(p)
            if not any(p.eq(x) for x in out): out.append(p)
        return out
    def A1(t,st,carried=None):
        H,E=t.H(st),t.E(st); IN,VAL=t.map(st); P=t.pos(st); m=t.mask
        def f(p):
            v=E.sel(p); k=KID(v); r=[IN.sel(k)==1,VAL.sel(k)==v,P.sel(k)==p,H.sel(p)==SHK(k)]
            if carried is not None: r.append(k!=KID(carried))
            return z3.Implies(z3.And(z3.ULE(p,m),H.sel(p)!=0),z3.And(r))
        return Forall([S32],f,t.trig(st),'A1',t.touched(st))
    def A2(t,st,carried=None):
        H,E=t.H(st),t.E(st); IN,VAL=t.map(st); P=t.pos(st); m=t.mask
        def f(k):
            g=[IN.sel(k)==1]
            if carried is not None: g.append(k!=KID(carried))
            p=P.sel(k); return z3.Implies(z3.And(g),z3.And(z3.ULE(p,m),H.sel(p)!=0,KID(E.sel(p))==k,E.sel(p)==VAL.sel(k)))
        return Forall([S64],f,['KIDS_k']+IN.roots(),'A2')
    def cnt(t,st): return z3.ZeroExt(32,t.size(st))==st.ghost[t.g('cnt')]
    def inv(t,st,carried=None,skipR=None): return [('probe order',t.R(st,skipR)),('entries are in the map',t.A1(st,carried)),('map entries are in the table',t.A2(st,carried)),('size counts the entries',t.cnt(st))]
    def assume(t,st,carried=None):
        for n,f in t.inv(st,carried): st.assume(f.schema() if isinstance(f,Forall) else f)
    def oblige(t,st,what,carried=None):
        for n,f in t.inv(st,carried): t.ex.oblige(st,what+': '+n,f)
    def empty_witness(t,st,strict=True):
        """pigeonhole: fewer entries than slots, so some slot is empty"""
        t.ex.trusted.add('counting: a table with fewer entries than slots has an empty slot, one with entries has a used slot (m_size is proved equal to the number of used slots, counted slot write by slot write)')
        st.assume(z3.ULT(z3.ZeroExt(32,t.size(st)),z3.ZeroExt(32,t.mask)+1)); e=z3.BitVec(fresh_name('empty_slot'),32); st.assume([z3.ULE(e,t.mask),t.H(st).sel(e)==0]); return e
    def used_witness(t,st,cond=None):
        e=z3.BitVec(fresh_name('used_slot'),32); f=z3.And(z3.ULE(e,t.mask),t.H(st).sel(e)!=0); st.assume(f if cond is None else z3.Implies(cond,f)); return e
    def slot_ok(t,st,pos,h,d=None):
        """insertion point for stored hash h: every slot from its home up to pos holds an entry at least as far; pos is empty or holds a nearer one"""
        H=t.H(st); m=t.mask; d=t.dist(pos,h) if d is None else d
        return [('in range',z3.ULE(pos,m)),('chain',Forall([S32],lambda q:z3.Implies(z3.And(z3.ULE(q,m),z3.ULT(t.dist(q,h),d)),z3.And(H.sel(q)!=0,z3.UGE(t.dist(q,H.sel(q)),t.dist(q,h)))),t.trig(st),'chain'))]
def names(st,n):
    """value object of the local called n in the innermost frame"""
    for f in reversed(st.frames):
        for k in(n,n+'.addr'):
            if k in f.names: return f.names[k]
    return None
def u32_locals(st):
    out=[]
    fr=st.frames[-1]
    for nm,oid in fr.names.items():
        o=st.objs.get(oid)
        if isinstance(o,Struct) and o.size==4 and 0 in o.cells and isinstance(o.cells[0][1],z3.BitVecRef): out.append((nm,oid,o.cells[0][1]))
    return out
def val(lv,k): return lv.st.objs[lv.bind[k]].cells[0][1]
def table(c,ex,st,name='tbl'): return Tab(c,ex,st,name,c.layout('hash_table',None,True))
def key_arg(st,name='k'):
    kb,ke=z3.BitVec(name+'.b',64),z3.BitVec(name+'.e',64); return [raw(kb),raw(ke)],KIDS(kb,ke)
@target('C01.rstar','C01',TU,funcs=['(lemma)'])
def rstar(c):
    ex=c.ex('probe order lemma'); st=State(); t=table(c,ex,st); H=t.H(st); m=t.mask
    p,j=z3.BitVecs('p j',32); d=t.dist(p,H.sel(p)); s=lambda j:(p-j)&m
    P=lambda j:z3.And(H.sel(s(j))!=0,z3.UGE(t.dist(s(j),H.sel(s(j))),d-j))
    st.assume([z3.ULE(p,m),H.sel(p)!=0]); ex.oblige(st,'base',P(BV(0,32)))
    st.assume(t.R(st).schema()); st.assume([z3.ULT(j,d),P(j)]); ex.oblige(st,'step',P(j+1))
@target('C01.get_distance','C01',TU,funcs=['hash_table::get_distance','hash_table::desired_position','hash_table::capacity'])
def gd(c):
    ex=c.ex('hash_table::get_distance'); st=State(); t=table(c,ex,st); p,h=z3.BitVecs('p h',32); st.assume(z3.ULE(p,t.mask)); st.objs[t.p.obj].ro=True
    for k,s,v in ex.start(st,c.fn(H_+'get_distance'),[t.p,p,h]): ex.oblige(s,'distance from home, modulo capacity',v==t.dist(p,h) if k=='ret' else False)
@target('C01.wrap','C01',TU,funcs=['(lemma)'])
def wrap(c):
    ex=c.ex('slot arithmetic lemma'); m,p,h,x=z3.BitVecs('m p h x',32); n=(p+1)&m; st=State(); st.assume([m&(m+1)==0,z3.ULE(p,m)])
    ex.oblige(st,'previous of next',(n-1)&m==p); ex.oblige(st,'next in range',z3.ULE(n,m)); ex.oblige(st,'next distance',(n-h)&m==(((p-h)&m)+1)&m)
class Probe(LoopSpec):
    """entry_for: slots at offsets below `distance` are used, at least as far from home, and hold other keys"""
    name='probe'; havoc_ghost=None
    def __init__(s,t,h,kid): s.t=t;s.h=h;s.kid=kid
    def match(s,ex,st,fr,header): return fr.fn.qual==H_+'entry_for'
    def bindings(s,ex,st,header,body):
        L=u32_locals(st); ds=[o for n,o,v in L if isc(simp(v)) and simp(v).as_long()==0]; ps=[o for n,o,v in L if not isc(simp(v))]
        pref=lambda o:0 if re.match('pos|distance',o) else 1
        return [{'pos':p,'d':d} for d in sorted(ds,key=pref) for p in sorted(ps,key=pref)][:8]
    def inv(s,lv):
        t=s.t; st=lv.st; pos,d=val(lv,'pos'),val(lv,'d'); H,E=t.H(st),t.E(st); m=t.mask
        return [('position',pos==((s.h+d)&m)),('distance',z3.ULE(d,m+1)),
                ('passed slots',Forall([S32],lambda q:z3.Implies(z3.And(z3.ULE(q,m),z3.ULT(t.dist(q,s.h),d)),z3.And(H.sel(q)!=0,z3.UGE(t.dist(q,H.sel(q)),t.dist(q,s.h)),KID(E.sel(q))!=s.kid)),t.trig(st),'passed'))]
    def variant(s,lv): return s.t.mask+1-val(lv,'d')
@target('C01.entry_for','C01',TU,funcs=['hash_table::entry_for','hash_table::stored_hash','hash_table::desired_position','hash_table::get_distance','hash_table::inc_pos','hash_table::empty_at','hash_table::hash_at'])
def ef(c):
    ex=c.ex('hash_table::entry_for',contracts=dict(BASE_CON,**DIST)); st=State(); t=table(c,ex,st); t.assume(st); ka,kid=key_arg(st); h=z3.BitVec('hash',32); st.assume(sh(h)==SHK(kid))
    st.objs[t.p.obj].ro=st.objs[t.h.obj].ro=st.objs[t.e.obj].ro=True
    ex.loopspecs=[Probe(t,sh(h),kid)]; r=ex.new_struct(st,'ret',8); n=0; fn=c.fn(H_+'entry_for')
    if len(fn.args)!=5: raise Unsupported('entry_for signature')
    for k,s,v in ex.start(st,fn,[r,t.p]+ka+[h]):
        if k!='ret': ex.oblige(s,'no-throw',False); continue
        n+=1; f=bv2bool(ex.load(s,r.add(4),('int',8))); pos=ex.load(s,r,('int',32)); H,E=t.H(s),t.E(s); IN,VAL=t.map(s); m=t.mask
        ex.oblige(s,'position in range',z3.ULE(pos,m))
        q=s.fork(); q.assume(z3.Not(f)); p1=t.pos(s).sel(kid); o=t.dist(p1,sh(h)); d=t.dist(pos,sh(h))
        if ex.feasible(q,z3.BoolVal(True)):
            q.assume(t.Rstar(q,p1,o-d)); ex.cut(q,'walking back from the key reaches the stop',z3.Implies(z3.ULE(d,o),((p1-(o-d))&m)==pos)); ex.oblige(q,'not found only if the key is not stored',IN.sel(kid)!=1)
        q=s.fork(); q.assume(f); ex.oblige(q,'found only if the key is stored',IN.sel(kid)==1)
        ex.oblige(s,'found position holds the key',z3.Implies(f,z3.And(H.sel(pos)!=0,KID(E.sel(pos))==kid,E.sel(pos)==VAL.sel(kid))))
        s2=s.fork(); s2.assume(z3.Not(f)); e=z3.BitVec('e',32); s2.assume([z3.ULE(e,m),H.sel(e)==0])
        for nm,g in t.slot_ok(s2,pos,sh(h)): ex.oblige(s2,'not found gives an insertion point: '+nm,g)
    ex.oblige(State(),'cover',n>1,'cover')
# ---------------------------------------------------------------- insert
def ptr_locals(st):
    """8-byte locals of the innermost frame holding an item address"""
    out=[]
    for nm,oid in st.frames[-1].names.items():
        o=st.objs.get(oid)
        if isinstance(o,Struct) and 0 in o.cells and o.cells[0][0]==8 and isinstance(o.cells[0][1],Ptr) and o.cells[0][1].obj is None and len(o.cells)==1: out.append((nm,oid,simp(o.cells[0][1].off())))
    return out
def flag_locals(st):
    return [(nm,oid,o.cells[0][1]) for nm,oid in st.frames[-1].names.items() for o in [st.objs.get(oid)] if isinstance(o,Struct) and 0 in o.cells and o.cells[0][0]==1]
def equal(ex,st,v,w):
    """v and w are the same value on this path"""
    if simp(v).eq(simp(w)): return True
    sv=z3.Solver(); sv.set('timeout',2000); sv.add(*st.pc); sv.add(v!=w); return sv.check()==z3.unsat
def rank(pat): return lambda x:0 if re.match(pat,x[0]) else 1
class Insert(LoopSpec):
    """insert: the table is in order except for one carried entry that belongs at or after pos"""
    name='insert'
    def __init__(s,t,e,pos0,h,kid,V): s.t=t;s.e=e;s.pos0=pos0;s.h=h;s.kid=kid;s.V=V
    def match(s,ex,st,fr,header): return fr.fn.qual==H_+'insert'
    def bindings(s,ex,st,header,body):
        L=u32_locals(st); same=lambda v,w:equal(ex,st,v,w); P=sorted([(n,o) for n,o,v in L if same(v,s.pos0)],key=rank('pos')); C=sorted([(n,o) for n,o,v in L if same(v,s.h)],key=rank('hash'))
        X=sorted([(n,o) for n,o,v in ptr_locals(st) if same(v,s.V)],key=rank('entry')); D=sorted([(n,o) for n,o,v in L if not isc(simp(v)) and not same(v,s.pos0) and not same(v,s.h)],key=rank('lookup'))
        F=sorted([(n,o) for n,o,v in flag_locals(st) if isc(simp(v)) or z3.is_bool(v)],key=rank('displaced'))
        out=[]
        for p in P[:2]:
            for q in (P if len(P)>1 else [(None,None)]):
                if q[1]==p[1]: continue
                for d in D[:2] or [(None,None)]:
                    for f in F[:2] or [(None,None)]: out.append({'pos':p[1],'ins':q[1],'c':C[0][1],'x':X[0][1],'d':d[1],'f':f[1]})
        if not out: raise Unsupported('insert: loop variables not recognised')
        return out[:6]
    def havoc_ghost(s,lv): s.t.fresh_pos(lv.st)
    def vals(s,lv):
        st=lv.st; return val(lv,'pos'),val(lv,'c'),simp(st.objs[lv.bind['x']].cells[0][1].off())
    def inv(s,lv):
        t=s.t; st=lv.st; m=t.mask; H,E=t.H(st),t.E(st); pos,c,x=s.vals(lv); IN,VAL=t.map(st); l=t.dist(pos,c); q=simp((pos-1)&m)
        r=[('position in range',z3.ULE(pos,m)),('carried entry',z3.And(c!=0,c==SHK(KID(x)),IN.sel(KID(x))==1,VAL.sel(KID(x))==x)),
           ('carried entry belongs here or later',z3.Or(l==0,z3.And(H.sel(q)!=0,z3.UGE(t.dist(q,H.sel(q)),l-1)))),('an empty slot remains',H.sel(s.e)==0)]
        r+=t.inv(st,x)
        if lv.bind['d']: r.append(('carried distance',val(lv,'d')==l))
        if lv.bind['f'] and lv.bind['ins']:
            f=val(lv,'f'); f=f if z3.is_bool(f) else bv2bool(f); i=val(lv,'ins')
            r+=[('flag',z3.BoolVal(True) if z3.is_bool(val(lv,'f')) else z3.ULE(val(lv,'f'),1)),('new entry placed',z3.If(f,z3.And(z3.ULE(i,m),H.sel(i)==s.h,E.sel(i)==s.V,z3.ULT((s.e-pos)&m,(s.e-i)&m)),x==s.V))]
        else: r.append(('new entry still carried',x==s.V))
        return r
    def lemmas(s,lv):
        t=s.t; pos,c,x=s.vals(lv); return [t.Rstar(lv.st,pos,simp((pos-s.e)&t.mask))]+t.wrap(pos,[c,t.H(lv.st).sel(pos)])
    def variant(s,lv): return (s.e-val(lv,'pos'))&s.t.mask
def add_to_map(t,st,kid,V):
    IN,VAL=t.map(st); st.ghost[t.g('IN')]=IN.store(kid,BV(1,1)); st.ghost[t.g('VAL')]=VAL.store(kid,V)
def del_from_map(t,st,kid): st.ghost[t.g('IN')]=t.map(st)[0].store(kid,BV(0,1))
@target('C01.insert','C01',TU,funcs=['hash_table::insert','ItemDictEntry::ItemDictEntry','ItemDictEntry::swap','swap(ItemDictEntry&,ItemDictEntry&)'],timeout=40000)
def ins(c):
    ex=c.ex('hash_table::insert',contracts=dict(BASE_CON,**DIST)); st=State(); t=table(c,ex,st); t.assume(st); ka,kid=key_arg(st); h=z3.BitVec('hash',32); pos=z3.BitVec('pos',32); V=z3.BitVec('V',64)
    st.assume([sh(h)==SHK(kid),KID(V)==kid,t.map(st)[0].sel(kid)!=1,z3.ULT(t.size(st)+1,t.mask+1),z3.ULT(t.size(st),t.mask+1)])
    for n,f in t.slot_ok(st,pos,sh(h)): st.assume(f.schema() if isinstance(f,Forall) else f)
    e=t.empty_witness(st); add_to_map(t,st,kid,V); ex.arr_hook=t.hook
    hobj=st.objs[t.p.obj]; fixed={k:v for k,v in hobj.cells.items()}
    ex.loopspecs=[Insert(t,e,pos,sh(h),kid,V)]; n=0; size0=t.size(st)
    for k,s,v in ex.start(st,c.fn(H_+'insert'),[t.p,pos]+ka+[h,raw(V)]):
        if k!='ret': ex.oblige(s,'no-throw',False); continue
        n+=1; t.oblige(s,'afterwards the map is the old one plus the new pair'); ex.oblige(s,'returned position holds the new entry',z3.And(z3.ULE(v,t.mask),t.H(s).sel(v)!=0,t.E(s).sel(v)==V)); ex.oblige(s,'one more entry',t.size(s)==size0+1); frame_ok(ex,t,s)
    ex.oblige(State(),'cover',n>0,'cover')
def frame_ok(ex,t,s):
    for f,v,T in(('m_capacity',simp(t.mask+1),('int',32)),('mask',t.mask,('int',32))): ex.oblige(s,'capacity unchanged',ex.load(s,t.p.add(t.lay[f][0]),T)==v)
    for f,p in(('m_hashes',t.h),('m_entries',t.e)):
        x=ex.load(s,t.p.add(t.lay[f][0]),('ptr',)); ex.oblige(s,'arrays kept',x.obj==p.obj and x.c==0 and not x.terms)
# ---------------------------------------------------------------- remove
class Remove(LoopSpec):
    """remove: a hole travels forward; slots between the start and the hole hold what their successor held, slots beyond it are untouched"""
    name='shift'
    def __init__(s,t,e,pos0,H0,E0): s.t=t;s.e=e;s.pos0=pos0;s.H0=H0;s.E0=E0
    def match(s,ex,st,fr,header): return fr.fn.qual==H_+'remove'
    def bindings(s,ex,st,header,body):
        L=u32_locals(st); m=s.t.mask; C=sorted([(n,o) for n,o,v in L if equal(ex,st,v,s.pos0)],key=lambda x:(0 if re.match('cur',x[0]) else 1,x[0]=='pos.addr')); F=sorted([(n,o) for n,o,v in L if equal(ex,st,v,(s.pos0+1)&m)],key=rank('fol'))
        if not C and not F: raise Unsupported('remove: loop variables not recognised')
        return [{'cur':c[1],'fol':f[1]} for c in C[:2] for f in (F or [(0,None)])]
    def havoc_ghost(s,lv): s.t.fresh_pos(lv.st)
    def inv(s,lv):
        t=s.t; st=lv.st; m=t.mask; H,E=t.H(st),t.E(st); cur=val(lv,'cur'); fol=simp((cur+1)&m); pc=simp((cur-1)&m); df=t.dist(fol,H.sel(fol)); off=lambda q:(q-s.pos0)&m; T=t.trig(st)+s.H0.roots()+s.E0.roots()
        r=[('hole in range',z3.ULE(cur,m)),('hole is empty',H.sel(cur)==0),('an empty slot remains',H.sel(s.e)==0),('before the empty slot',z3.And(cur!=s.e,z3.ULT(off(cur),off(s.e)))),
           ('next entry',z3.Implies(z3.And(H.sel(fol)!=0,df!=0),z3.Or(df==1,z3.And(H.sel(pc)!=0,z3.UGE(t.dist(pc,H.sel(pc)),df-2))))),
           ('shifted slots',Forall([S32],lambda q:z3.Implies(z3.And(z3.ULE(q,m),z3.ULT(off(q),off(cur))),z3.And(H.sel(q)==s.H0.sel(simp((q+1)&m)),E.sel(q)==s.E0.sel(simp((q+1)&m)),H.sel(q)!=0)),T,'shifted',t.touched(st))),
           ('slots beyond the hole',Forall([S32],lambda q:z3.Implies(z3.And(z3.ULE(q,m),z3.UGT(off(q),off(cur))),z3.And(H.sel(q)==s.H0.sel(q),E.sel(q)==s.E0.sel(q))),T,'beyond',t.touched(st))),
           ('hole was used',s.H0.sel(cur)!=0)]
        if lv.bind['fol']: r.append(('following position',val(lv,'fol')==fol))
        return r+t.inv(st,skipR=fol)
    def lemmas(s,lv):
        t=s.t; cur=val(lv,'cur'); fol=simp((cur+1)&t.mask); H=t.H(lv.st); return t.wrap(cur,[s.pos0,H.sel(fol)])+t.wrap(fol,[s.pos0])
    def variant(s,lv): return (s.e-val(lv,'cur'))&s.t.mask
def shift_post(t,H,E,H0,E0,pos):
    """what remove does slot by slot: a used slot keeps its entry or receives its successor's, and never the removed one"""
    m=t.mask
    def f(p):
        n=simp((p+1)&m); return z3.Implies(z3.And(z3.ULE(p,m),H.sel(p)!=0),z3.And(H0.sel(p)!=0,z3.Or(z3.And(p!=pos,H.sel(p)==H0.sel(p),E.sel(p)==E0.sel(p)),z3.And(n!=pos,H0.sel(n)!=0,H.sel(p)==H0.sel(n),E.sel(p)==E0.sel(n)))))
    return f
@target('C01.remove','C01',TU,funcs=['hash_table::remove'],timeout=40000)
def rem(c):
    ex=c.ex('hash_table::remove',contracts=dict(BASE_CON,**DIST)); st=State(); t=table(c,ex,st); t.assume(st); pos=z3.BitVec('pos',32)
    st.assume([z3.ULE(pos,t.mask),t.H(st).sel(pos)!=0,z3.UGT(t.size(st),0),z3.ULT(t.size(st),t.mask+1)]); e=t.empty_witness(st); kid=KID(t.E(st).sel(pos)); size0=t.size(st)
    H0,E0=t.H(st),t.E(st); st.assume(t.wrap(pos,[pos])); del_from_map(t,st,kid); ex.arr_hook=t.hook; ex.loopspecs=[Remove(t,e,pos,H0,E0)]; n=0
    for k,s,v in ex.start(st,c.fn(H_+'remove'),[t.p,pos]):
        if k!='ret': ex.oblige(s,'no-throw',False); continue
        n+=1; t.oblige(s,'afterwards the map is the old one without that key'); ex.oblige(s,'one entry less',t.size(s)==size0-1); frame_ok(ex,t,s)
        ex.oblige(s,'slots keep their entry or receive the next one',Forall([S32],shift_post(t,t.H(s),t.E(s),H0,E0,pos),t.trig(s)+H0.roots()+E0.roots(),'shift'))
    ex.oblige(State(),'cover',n>0,'cover')
# ---------------------------------------------------------------- contracts of the table operations, for their callers
def A1lite(t,st):
    H,E=t.H(st),t.E(st); IN,VAL=t.map(st); m=t.mask
    return Forall([S32],lambda p:z3.Implies(z3.And(z3.ULE(p,m),H.sel(p)!=0),z3.And(IN.sel(KID(E.sel(p)))==1,VAL.sel(KID(E.sel(p)))==E.sel(p),H.sel(p)==SHK(KID(E.sel(p))))),t.trig(st),'A1')
def new_slots(t,st):
    """the operation may have rearranged the slots: fresh arrays satisfying the invariant"""
    st.w(t.h.obj).fields[0]=FA.base(fresh_name(t.name+'.H'),32,32); st.w(t.e.obj).fields[0]=FA.base(fresh_name(t.name+'.E'),64,32); st.ghost[t.g('perm')]=None
    st.assume(A1lite(t,st).schema())
def set_size(t,st,v): t.ex.store(st,t.p.add(t.lay['m_size'][0]),simp(v),('int',32))
def need_tab(ex,p,what,st):
    t=tab_of(ex,p,st)
    if t is None: raise Unsupported(what+': unknown table')
    return t
def key_id(a,b): return KIDS(simp(a.off()),simp(b.off()))
class CEntryFor:
    """entry_for (C01.entry_for): found iff the key is in the map; its slot, or an insertion point"""
    def apply(s,ex,st,fn,a,I):
        r,p,kb,ke,h=a; t=need_tab(ex,p,'entry_for',st); kid=key_id(kb,ke); ex.oblige(st,'entry_for pre: hash belongs to the key',sh(h)==SHK(kid),'pre',I.line)
        pos=FreshBV('slot',32); H,E=t.H(st),t.E(st); IN,VAL=t.map(st); f=IN.sel(kid)==1
        st.assume([z3.ULE(pos,t.mask),z3.Implies(f,z3.And(H.sel(pos)!=0,KID(E.sel(pos))==kid,E.sel(pos)==VAL.sel(kid)))])
        ex.store(st,r,pos,('int',32)); ex.store(st,r.add(4),z3.If(f,BV(1,8),BV(0,8)),('int',8)); st.ghost[t.g('perm')]=(H,E,kid,pos); return [('ret',st,None)]
class CInsert:
    """insert (C01.insert)"""
    def apply(s,ex,st,fn,a,I):
        p,pos,kb,ke,h,v=a; t=need_tab(ex,p,'insert',st); kid=key_id(kb,ke); V=simp(v.off()); IN,VAL=t.map(st); pm=st.ghost.get(t.g('perm')); n=t.size(st)
        ok=pm is not None and pm[0] is t.H(st) and pm[1] is t.E(st)
        ex.oblige(st,'insert pre: the insertion point is current',z3.And(pm[2]==kid,pm[3]==pos) if ok else False,'pre',I.line)
        ex.oblige(st,'insert pre: the key is not stored',IN.sel(kid)!=1,'pre',I.line); ex.oblige(st,'insert pre: hash and item belong to the key',z3.And(sh(h)==SHK(kid),KID(V)==kid),'pre',I.line)
        ex.oblige(st,'insert pre: room for the entry',z3.And(z3.ULT(n,t.mask),z3.ULT(n+1,t.mask+1)),'pre',I.line)
        add_to_map(t,st,kid,V); set_size(t,st,n+1); new_slots(t,st); r=FreshBV('slot',32); st.assume([z3.ULE(r,t.mask),t.H(st).sel(r)!=0,t.E(st).sel(r)==V]); return [('ret',st,r)]
class CRemove:
    """remove (C01.remove)"""
    def apply(s,ex,st,fn,a,I):
        p,pos=a; t=need_tab(ex,p,'remove',st); n=t.size(st); H0,E0=t.H(st),t.E(st)
        ex.oblige(st,'remove pre: the slot is used',z3.And(z3.ULE(pos,t.mask),H0.sel(pos)!=0),'pre',I.line); ex.oblige(st,'remove pre: table not full',z3.And(z3.UGT(n,0),z3.ULE(n,t.mask)),'pre',I.line)
        del_from_map(t,st,KID(E0.sel(pos))); set_size(t,st,n-1); new_slots(t,st)
        st.assume(Forall([S32],shift_post(t,t.H(st),t.E(st),H0,E0,pos),t.trig(st)+H0.roots(),'shift').schema()); return [('ret',st,None)]
class CDel:
    """del (C01.del)"""
    def apply(s,ex,st,fn,a,I):
        p,kb,ke,h=a; t=need_tab(ex,p,'del',st); kid=key_id(kb,ke); ex.oblige(st,'del pre: hash belongs to the key',sh(h)==SHK(kid),'pre',I.line); IN,VAL=t.map(st); n=t.size(st); ex.oblige(st,'del pre: table not full',z3.ULE(n,t.mask),'pre',I.line)
        f=IN.sel(kid)==1; H0=t.H(st); st.assume(z3.Implies(f,z3.UGT(n,0))); del_from_map(t,st,kid); set_size(t,st,z3.If(f,n-1,n)); new_slots(t,st); H1=t.H(st)
        st.assume(Forall([S32],lambda q:z3.Implies(H0.sel(q)==0,H1.sel(q)==0),t.trig(st)+H0.roots(),'empties').schema()); return [('ret',st,f)]
class CPut:
    """put (C01.put)"""
    def apply(s,ex,st,fn,a,I):
        p,kb,ke,h,v=a; t=need_tab(ex,p,'put',st); kid=key_id(kb,ke); V=simp(v.off()); IN,VAL=t.map(st); n=t.size(st); f=IN.sel(kid)==1
        ex.oblige(st,'put pre: hash and item belong to the key',z3.And(sh(h)==SHK(kid),KID(V)==kid),'pre',I.line); ex.oblige(st,'put pre: room for the entry',z3.Or(f,z3.ULT(n,t.mask)),'pre',I.line)
        add_to_map(t,st,kid,V); set_size(t,st,z3.If(f,n,n+1)); new_slots(t,st); return [('ret',st,z3.Not(f))]
class CGet:
    """get / contains (C01.get)"""
    def __init__(s,sret): s.sret=sret
    def apply(s,ex,st,fn,a,I):
        r=None
        if s.sret: r,a=a[0],a[1:]
        p,kb,ke,h=a; t=need_tab(ex,p,'get',st); kid=key_id(kb,ke); ex.oblige(st,'get pre: hash belongs to the key',sh(h)==SHK(kid),'pre',I.line); IN,VAL=t.map(st); f=IN.sel(kid)==1
        if not s.sret: return [('ret',st,f)]
        ex.store(st,r,raw(simp(z3.If(f,VAL.sel(kid),BV(0)))),('ptr',)); ex.store(st,r.add(8),z3.If(f,BV(1,8),BV(0,8)),('int',8)); return [('ret',st,None)]
TABLE_CON={H_+'entry_for':CEntryFor(),H_+'insert':CInsert(),H_+'remove':CRemove()}
def concrete(c,name,con=True):
    ex=c.ex('hash_table::'+name,contracts=dict(BASE_CON,**DIST)); st=State(); t=table(c,ex,st); t.assume(st); st.ghost[t.g('perm')]=None
    if con: ex.contracts.update(TABLE_CON)
    ex.arr_hook=t.hook; return ex,st,t
def lite(c,name):
    ex=c.ex('hash_table::'+name,contracts=dict(BASE_CON,**TABLE_CON)); st=State(); t=table(c,ex,st); st.ghost[t.g('perm')]=None; st.assume(A1lite(t,st).schema()); IN,VAL=t.map(st)
    st.assume(Forall([S64],lambda k:z3.Implies(IN.sel(k)==1,KID(VAL.sel(k))==k),IN.roots()+VAL.roots(),'keys').schema()); return ex,st,t
def map_eq(t,st,IN,VAL,what,ex):
    A,B=t.map(st); k=z3.BitVec(fresh_name('anykey'),64); ex.oblige(st,what+': keys',(A.sel(k)==1)==(IN.sel(k)==1)); ex.oblige(st,what+': values',z3.Implies(IN.sel(k)==1,B.sel(k)==VAL.sel(k)))
@target('C01.put_del','C01',TU,funcs=['hash_table::put','hash_table::del','hash_table::get','hash_table::contains'])
def put_del(c):
    for name in('put','del','get','contains'):
        ex,st,t=lite(c,name); ka,kid=key_arg(st); h=z3.BitVec('hash',32); V=z3.BitVec('V',64); IN,VAL=t.map(st); f0=IN.sel(kid)==1; n0=t.size(st); st.assume([sh(h)==SHK(kid),KID(V)==kid,z3.ULE(n0,t.mask),z3.Implies(f0,z3.UGT(n0,0))]); H0=t.H(st)
        fn=c.fn(H_+name); r=ex.new_struct(st,'ret',16)
        if name=='put': st.assume(z3.Or(f0,z3.ULT(n0,t.mask))); args=[t.p]+ka+[h,raw(V)]
        elif name=='get': args=[r,t.p]+ka+[h]
        else: args=[t.p]+ka+[h]
        ex.arr_hook=lambda ex,st,obj,fo,i,v,t=t:put_hook(ex,st,t,obj,i,v)
        outs=ex.start(st,fn,args); ex.oblige(State(),'cover',len(outs)>0,'cover')
        for k,s,v in outs:
            if k!='ret': ex.oblige(s,'no-throw',False); continue
            b=(lambda v:v if z3.is_bool(v) else bv2bool(v))
            if name=='put':
                map_eq(t,s,IN.store(kid,BV(1,1)),VAL.store(kid,V),'afterwards the map is the old one with key -> value',ex); ex.oblige(s,'tells a new key from an update',b(v)==z3.Not(f0)); ex.oblige(s,'size',t.size(s)==z3.If(f0,n0,n0+1))
            elif name=='del':
                map_eq(t,s,IN.store(kid,BV(0,1)),VAL,'afterwards the map is the old one without the key',ex); ex.oblige(s,'true iff the key was stored',b(v)==f0); ex.oblige(s,'size',t.size(s)==z3.If(f0,n0-1,n0))
                ex.oblige(s,'empty slots stay empty',Forall([S32],lambda q:z3.Implies(z3.And(z3.ULE(q,t.mask),H0.sel(q)==0),t.H(s).sel(q)==0),[],'emp'))
            elif name=='get':
                map_eq(t,s,IN,VAL,'map unchanged',ex); ex.oblige(s,'found iff stored',bv2bool(ex.load(s,r.add(8),('int',8)))==f0); ex.oblige(s,'value of the key',z3.Implies(f0,simp(ex.load(s,r,('ptr',)).off())==VAL.sel(kid)))
            else: map_eq(t,s,IN,VAL,'map unchanged',ex); ex.oblige(s,'true iff stored',b(v)==f0)
def put_hook(ex,st,t,obj,i,v):
    """direct slot writes of put: replacing the entry of a used slot by another item with the same key"""
    if obj==t.h.obj: raise Unsupported('direct write to a slot hash')
    if obj==t.e.obj:
        E=t.E(st); k=KID(E.sel(i)); v=ex.as_bv(v,64); ex.oblige(st,'entry replaced by one with the same key',z3.And(z3.ULE(i,t.mask),t.H(st).sel(i)!=0,KID(v)==k))
        IN,VAL=t.map(st); st.ghost[t.g('VAL')]=VAL.store(k,v)
@target('C01.replace_kv','C01',TU,funcs=['dict::iterator::unsafe_replace_kv','ItemDictEntry::swap'])
def rkv(c):
    ex,st,t=concrete(c,'unsafe_replace_kv',False); pos=z3.BitVec('pos',32); ka,kid=key_arg(st); V=z3.BitVec('V',64); h=z3.BitVec('hash',32); it=ex.new_struct(st,'it',16)
    ex.store(st,it,t.p,('ptr',)); ex.store(st,it.add(8),pos,('int',32)); st.assume([z3.ULE(pos,t.mask),t.H(st).sel(pos)!=0,KID(t.E(st).sel(pos))==kid,KID(V)==kid]); st.ghost[t.g('VAL')]=t.map(st)[1].store(kid,V); n0=t.size(st)
    for k,s,v in ex.start(st,c.fn(D_+'iterator::unsafe_replace_kv'),[it]+ka+[h,raw(V)]):
        if k!='ret': ex.oblige(s,'no-throw',False); continue
        t.oblige(s,'afterwards the map is the old one with key -> value'); ex.oblige(s,'size',t.size(s)==n0); ex.oblige(s,'the slot holds the new item',t.E(s).sel(pos)==V)
@target('C01.iterator','C01',TU,funcs=['dict::iterator::operator bool','dict::iterator::value','dict::iterator::key'])
def itv(c):
    for name in('operator bool','value'):
        for null in(False,True):
            ex,st,t=concrete(c,name,False); pos=z3.BitVec('pos',32); it=ex.new_struct(st,'it',16); ex.store(st,it,NULL if null else t.p,('ptr',)); ex.store(st,it.add(8),pos,('int',32)); st.assume(z3.ULE(pos,t.mask)); u=t.H(st).sel(pos)!=0; st.objs[it.obj].ro=True
            for k,s,v in ex.start(st,c.fn(D_+'iterator::'+name),[it]):
                if k!='ret': ex.oblige(s,'no-throw',False)
                elif name=='value': ex.oblige(s,'the item in the slot, or null',simp(v.off() if isinstance(v,Ptr) else v)==(BV(0) if null else z3.If(u,t.E(s).sel(pos),BV(0))))
                else: ex.oblige(s,'true iff it refers to an entry',(v if z3.is_bool(v) else bv2bool(v))==(z3.BoolVal(False) if null else u))
# ---------------------------------------------------------------- constructor, clear
class Clear(LoopSpec):
    name='clear'; havoc_ghost=None
    def __init__(s,cap,harr): s.cap=cap;s.harr=harr
    def match(s,ex,st,fr,header): return fr.fn.qual in(H_+'clear',H_+'hash_table')
    def bindings(s,ex,st,header,body):
        L=[(n,o) for n,o,v in u32_locals(st) if isc(simp(v)) and simp(v).as_long()==0]
        if not L: raise Unsupported('clear: no counter')
        return [{'i':o} for n,o in sorted(L,key=rank('pos'))[:3]]
    def inv(s,lv):
        i=val(lv,'i'); H=lv.st.objs[s.harr(lv.st)].fields[0]; return [('counter',z3.ULE(i,s.cap)),('cleared so far',Forall([S32],lambda q:z3.Implies(z3.ULT(q,i),H.sel(q)==0),H.roots(),'cleared'))]
    def variant(s,lv): return s.cap-val(lv,'i')
def empty_post(ex,t_or,s,cap,H,size):
    ex.oblige(s,'every slot is empty',Forall([S32],lambda q:z3.Implies(z3.ULT(q,cap),H.sel(q)==0),H.roots(),'empty')); ex.oblige(s,'size is zero',size==0)
@target('C01.clear','C01',TU,funcs=['hash_table::clear'])
def clr(c):
    ex=c.ex('hash_table::clear'); st=State(); t=table(c,ex,st); ex.loopspecs=[Clear(t.mask+1,lambda st:t.h.obj)]
    for k,s,v in ex.start(st,c.fn(H_+'clear'),[t.p]):
        if k!='ret': ex.oblige(s,'no-throw',False); continue
        empty_post(ex,t,s,t.mask+1,t.H(s),t.size(s)); frame_ok(ex,t,s)
@target('C01.ctor','C01',TU,funcs=['hash_table::hash_table','hash_table::clear','hash_table::ok'])
def ctor(c):
    ex=c.ex('hash_table::hash_table'); st=State(); lay=c.layout('hash_table',None,True); cap=z3.BitVec('cap',32); st.assume([cap!=0,cap&(cap-1)==0]); p=ex.new_struct(st,'tbl',lay['']); got={}
    def alloc(ex,st,n,nothrow,I):
        if not nothrow: return NotImplemented
        n=simp(n); w=None
        for stride in(4,8):
            sv=z3.Solver(); sv.add(*st.pc); sv.add(n!=z3.ZeroExt(32,cap)*stride)
            if sv.check()==z3.unsat: w=stride
        if w is None: raise Unsupported('allocation size of the arrays')
        a=ex.new_arr(st,'arr%d'%w,w,{0:FA.base(fresh_name('A%d'%w),w*8,32)},simp(z3.ZeroExt(32,cap)),32); t=st.fork(); st.ghost['arr%d'%w]=a.obj; return [('ret',st,a),('ret',t,NULL)]
    ex.alloc_hook=alloc; ex.loopspecs=[Clear(cap,lambda st:st.ghost['arr4'])]; st.ghost['arr4']=st.ghost['arr8']=None; n=0
    for k,s,v in ex.start(st,c.fn(H_+'hash_table'),[p,cap]):
        if k!='ret': ex.oblige(s,'no-throw',False); continue
        h=ex.load(s,p.add(lay['m_hashes'][0]),('ptr',)); e=ex.load(s,p.add(lay['m_entries'][0]),('ptr',)); ok=h.obj is not None and e.obj is not None; n+=ok
        for k2,s2,v2 in again(ex,s,c.fn(H_+'ok'),[p]): ex.oblige(s2,'ok() iff both arrays were allocated',(v2 if z3.is_bool(v2) else bv2bool(v2))==z3.BoolVal(ok))
        ex.oblige(s,'capacity and mask',z3.And(ex.load(s,p.add(lay['m_capacity'][0]),('int',32))==cap,ex.load(s,p.add(lay['mask'][0]),('int',32))==cap-1))
        if ok: empty_post(ex,None,s,cap,s.objs[h.obj].fields[0],ex.load(s,p.add(lay['m_size'][0]),('int',32))); ex.oblige(s,'hashes have capacity() slots of 4 bytes, entries of 8',s.objs[h.obj].stride==4 and s.objs[e.obj].stride==8)
    ex.oblige(State(),'cover',n==1,'cover')
# ---------------------------------------------------------------- remove_if
class Pred:
    """the predicate: any answer; the ghost LAST remembers the last answer per key"""
    def __init__(s,t): s.t=t
    def apply(s,ex,st,fn,a,I):
        if 'lambda' not in fn.dem: return NotImplemented
        t=s.t; v=simp(a[-1].off()) if a[-1].obj is None else None
        if v is None: v=simp(ex.load(st,a[-1],('ptr',)).off())
        IN,VAL=t.map(st); k=KID(v); ex.oblige(st,'the predicate is asked about stored items',z3.And(IN.sel(k)==1,VAL.sel(k)==v),'pre',I.line); r=FreshBool('pred')
        st.ghost['LAST']=st.ghost['LAST'].store(k,z3.If(r,BV(1,2),BV(0,2))); return [('ret',st,r)]
class RemIf(LoopSpec):
    name='remove_if'
    def __init__(s,t,IN0,VAL0): s.t=t;s.IN0=IN0;s.VAL0=VAL0
    def match(s,ex,st,fr,header): return fr.fn.qual==H_+'remove_if'
    def bindings(s,ex,st,header,body):
        L=[(n,o) for n,o,v in u32_locals(st) if isc(simp(v)) and simp(v).as_long()==0]
        if not L: raise Unsupported('remove_if: no counter')
        return [{'i':o} for n,o in sorted(L,key=rank('pos'))[:3]]
    def havoc_ghost(s,lv):
        t=s.t; st=lv.st; st.ghost[t.g('IN')]=FA.base(fresh_name('IN'),1,64); st.ghost['LAST']=FA.base(fresh_name('LAST'),2,64); st.ghost[t.g('perm')]=None
    def inv(s,lv):
        t=s.t; st=lv.st; i=val(lv,'i'); H,E=t.H(st),t.E(st); IN,VAL=t.map(st); L=st.ghost['LAST']; n=t.size(st)
        return [('counter',z3.ULE(i,t.mask+1)),('size',z3.ULE(n,t.mask)),('slots hold stored items',A1lite(t,st)),
                ('visited entries were kept on the last call',Forall([S32],lambda q:z3.Implies(z3.And(z3.ULT(q,i),H.sel(q)!=0),L.sel(KID(E.sel(q)))==0),t.trig(st),'vis')),
                ('removed exactly when the last answer was true',Forall([S64],lambda k:z3.And(z3.Implies(IN.sel(k)==1,z3.And(s.IN0.sel(k)==1,L.sel(k)!=1)),z3.Implies(z3.And(s.IN0.sel(k)==1,IN.sel(k)!=1),L.sel(k)==1)),IN.roots()+s.IN0.roots()+L.roots(),'rem'))]
    def lemmas(s,lv):
        t=s.t; IN,VAL=t.map(lv.st); n=t.size(lv.st); H=t.H(lv.st); i=val(lv,'i')
        return [z3.Implies(z3.And(z3.ULE(i,t.mask),H.sel(i)!=0),z3.UGT(n,0))]      # counting: a used slot means a non-zero size
    def variant(s,lv):
        t=s.t; return z3.Concat(t.size(lv.st),BV(0,32))+z3.ZeroExt(32,t.mask+1-val(lv,'i'))
@target('C01.remove_if','C01',TU,funcs=['hash_table::remove_if'])
def remif(c):
    ex,st,t=lite(c,'remove_if'); IN,VAL=t.map(st); st.ghost['LAST']=FA.fnarr(lambda k:BV(2,2),2,64); st.assume(z3.ULE(t.size(st),t.mask)); L0=st.ghost['LAST']
    fn=c.fn(H_+'remove_if'); lam=[f.qual for m in c.mods for f in m.fns.values() if 'lambda' in f.dem and 'operator()' in f.dem]
    for q in set(lam): ex.contracts[q]=Pred(t)
    ex.trusted.add('counting: a table with fewer entries than slots has an empty slot, one with entries has a used slot (m_size is proved equal to the number of used slots, counted slot write by slot write)')
    ex.loopspecs=[RemIf(t,IN,VAL)]; n=0; cl=ex.new_struct(st,'pred',8)
    for k,s,v in ex.start(st,fn,([t.p,FA and raw(FreshBV('cap',64))])[:len(fn.args)]):
        if k!='ret': ex.oblige(s,'no-throw',False); continue
        n+=1; A,B=t.map(s); L=s.ghost['LAST']; kk=z3.BitVec('anykey',64)
        # every stored key sits in some slot (inv: map entries are in the table)
        ps=FreshBV('slot_of_key',32); s.assume(z3.Implies(A.sel(kk)==1,z3.And(z3.ULE(ps,t.mask),t.H(s).sel(ps)!=0,KID(t.E(s).sel(ps))==kk)))
        ex.oblige(s,'every entry was asked about, and is gone iff the last answer was true',z3.Implies(IN.sel(kk)==1,z3.And(L.sel(kk)!=2,(A.sel(kk)==1)==(L.sel(kk)==0)))); ex.oblige(s,'nothing is added',z3.Implies(A.sel(kk)==1,IN.sel(kk)==1)); ex.oblige(s,'values kept',z3.Implies(A.sel(kk)==1,B.sel(kk)==VAL.sel(kk)))
    ex.oblige(State(),'cover',n>0,'cover')
