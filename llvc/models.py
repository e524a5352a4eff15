"""Trusted models (stubs) of library code outside /repo, shared by the contract files."""
from sym import *
CAT_CACHELOT='@cat_cachelot'; CAT_SYSTEM='@cat_system'; CAT_PROTO='@cat_proto'
def cat_ptr(st,name):
    if name not in st.objs: st.objs[name]=Struct(name)
    return Ptr(name)
def ec_set(ex,st,p,val,cat):
    ex.store(st,p,val,('int',32)); ex.store(st,p.add(8),cat,('ptr',)); ex.store(st,p.add(16),z3.If(val!=0,BV(1,64),BV(0,64)),('int',64))
def ec_val(ex,st,p): return ex.load(st,p,('int',32))
def ec_failed(ex,st,p): return simp(ex.load(st,p,('int',32))!=0)
def ec_cat(ex,st,p): return ex.load(st,p.add(8),('ptr',))
def new_ec(ex,st,name='ec',val=None):
    p=ex.new_struct(st,name,24); ec_set(ex,st,p,BV(0,32) if val is None else val,cat_ptr(st,CAT_SYSTEM)); return p
def _ec_ctor(ex,st,fn,a,I):
    if len(a)==1: ec_set(ex,st,a[0],BV(0,32),cat_ptr(st,CAT_SYSTEM)); return None
    if len(a)==3 and isinstance(a[1],z3.BitVecRef) and isinstance(a[2],Ptr): ec_set(ex,st,a[0],a[1],a[2]); return None
    return NotImplemented
def _ec_assign(ex,st,fn,a,I):
    if len(a)==3: ec_set(ex,st,a[0],a[1],a[2]); return None
    return NotImplemented
EC_STUBS=[
 ('boost::system::error_code::error_code',_ec_ctor),
 ('boost::system::error_code::assign',_ec_assign),
 ('boost::system::error_code::clear',lambda ex,st,fn,a,I:ec_set(ex,st,a[0],BV(0,32),cat_ptr(st,CAT_SYSTEM))),
 ('boost::system::error_code::operator bool',lambda ex,st,fn,a,I:ec_failed(ex,st,a[0])),
 ('boost::system::error_code::failed',lambda ex,st,fn,a,I:ec_failed(ex,st,a[0])),
 ('boost::system::error_code::value',lambda ex,st,fn,a,I:ec_val(ex,st,a[0])),
 ('boost::system::error_code::category',lambda ex,st,fn,a,I:ec_cat(ex,st,a[0])),
 ('cachelot::error::get_cachelot_error_category',lambda ex,st,fn,a,I:cat_ptr(st,CAT_CACHELOT)),
]
TRUST_EC='boost::system::error_code is modelled as (value, category), failing iff value != 0'
ERR=dict(unknown_error=0,out_of_memory=1,numeric_convert=2,numeric_overflow=3,key_too_long=4,item_too_big=5,not_implemented=6,incomplete_request=7,broken_request=8)
def single_loop(fnpat):
    """match loops of the function under verification, or of anything it inlines from the same file"""
    def m(ex,st,fr,header): return re.fullmatch(fnpat,fr.fn.qual) is not None
    return m
# ---- memory / algorithm functions of the C and C++ library
def _sel(ex,st,p,i): return ex.load(st,p.addterm(i,1),('int',8)) if not isc(i) else ex.load(st,p.add(i.as_long()),('int',8))
def byte_at(ex,st,p):
    """function offset -> byte of the object p points into, starting at p (no bounds obligation)"""
    o=st.objs[p.obj]
    if isinstance(o,Arr) and o.stride==1:
        fa=o.fields[0]; base=simp(p.off()); return lambda i:fa.sel(simp(base+i))
    c=ex.load(st,p,('int',8)); return lambda i:c     # one-byte struct object
def rd_range(ex,st,p,n,line,what):
    o=st.objs.get(p.obj)
    if isinstance(o,Arr): ex.range_check(st,o,p,n,what,line)
    elif isinstance(o,Struct): ex.oblige(st,'bounds:'+what,z3.ULE(n,BV((o.size or 1)-p.c)),'memsafe',line)
def trig_of(ex,st,p):
    o=st.objs[p.obj]; return o.fields[0].roots() if isinstance(o,Arr) else []
def memcmp_stub(ex,st,fn,a,I):
    """memcmp: zero iff the ranges are equal byte for byte"""
    p,q,n=a[0],a[1],simp(a[2])
    if isc(n) and n.as_long()==0: return BV(0,32)
    rd_range(ex,st,p,n,I.line,'memcmp'); rd_range(ex,st,q,n,I.line,'memcmp')
    f,g=byte_at(ex,st,p),byte_at(ex,st,q); t=st.fork()
    ex.trusted.add('memcmp(p,q,n)==0 iff the n bytes are equal')
    roots=trig_of(ex,st,p)+trig_of(ex,st,q)
    bases=[simp(p.off()),simp(q.off())]
    # equal outcome: quantified over the absolute index of each side
    for k,pp in enumerate((p,q)):
        o=st.objs[pp.obj]
        if isinstance(o,Arr): st.schemas.append(Schema('memcmp',[z3.BitVecSort(64)],(lambda b:lambda i:z3.Implies(z3.ULT(i-b,n),f(simp(i-b))==g(simp(i-b))))(bases[k]),o.fields[0].roots()))
    if isc(n) and n.as_long()<=32: st.assume([f(BV(j))==g(BV(j)) for j in range(n.as_long())])
    st.assume(z3.BoolVal(True)); z=z3.BitVec('memcmp_n',64)
    w=FreshBV('diff',64); t.assume(z3.ULT(w,n)); t.assume(f(w)!=g(w)); r=FreshBV('memcmp',32); t.assume(r!=0)
    t.ghost['wit']=t.ghost.get('wit',())+(w,)
    st.ghost['cmpn']=n
    return [('ret',st,BV(0,32)),('ret',t,r)]
MEM_STUBS=[('memcmp',memcmp_stub),('bcmp',memcmp_stub)]
def ptr_at(p,off):
    """pointer into p's object at absolute offset"""
    return Ptr(p.obj,0,((off,1),)) if not isc(off) else Ptr(p.obj,off.as_long())
def again(ex,st,fn,args):
    """run a further function from the final state of an earlier run; returns its outcomes"""
    st=st.fork(); st.frames=[]; st.pending=None; st.loops=[]
    return ex.start(st,fn,args)
def one(ex,st,fn,args,what=''):
    outs=again(ex,st,fn,args)
    if len(outs)!=1 or outs[0][0]!='ret': raise Unsupported('%s: %d outcomes'%(what or fn.qual,len(outs)))
    return outs[0][1],outs[0][2]
