"""C21 FNV-1a"""
from api import *
from models import *
tu('hash','$VERIF/tu/hash.cpp')
FNV=z3.Function('FNV',z3.BitVecSort(64),z3.BitVecSort(32))   # FNV(k): hash of the first k bytes
SEED,PRIME=BV(0x811c9dc5,32),BV(0x01000193,32)
class FoldLoop(LoopSpec):
    name='fnv'; variant=None; havoc_ghost=None
    def __init__(s,A,lo,n): s.A=A;s.lo=lo;s.n=n
    def match(s,ex,st,fr,header): return True
    def bindings(s,ex,st,header,body):
        cur=[];acc=[];idx=[]
        for fr in st.frames[-1:]:
            for nm,oid in fr.names.items():
                o=st.objs.get(oid)
                if not isinstance(o,Struct): continue
                for off,(sz,v) in o.cells.items():
                    if isinstance(v,Ptr) and v.obj==s.A.obj: cur.append((oid,off,'p'))
                    elif sz==4: acc.append((oid,off))
                    elif sz==8 and isinstance(v,z3.BitVecRef) and isc(simp(v)) and simp(v).as_long()==0: idx.append((oid,off,'i'))
        cur.sort(key=lambda c:not c[0].startswith('__begin'))
        return [{'c':c,'a':a} for c in cur+idx for a in acc]
    def pos(s,lv):
        oid,off,k=lv.bind['c']; v=lv.st.objs[oid].cells[off][1]
        return simp(v.off()-s.lo) if k=='p' else v
    def inv(s,lv):
        i=s.pos(lv); oid,off=lv.bind['a']; v=lv.st.objs[oid].cells[off][1]
        return [('position in range',z3.ULE(i,s.n)),('accumulator is the hash of the prefix',v==FNV(i))]
    def variant(s,lv): return s.n-s.pos(lv)
@target('C21.fnv1a','C21 C14 C18','hash',funcs=['internal::fnv1a_hasher<uint32>::operator()'])
def t(c):
    ex=c.ex('fnv1a'); fn=c.fn('cachelot::internal::fnv1a_hasher::operator()',lambda f:'fnv1a_hasher<unsigned int' in f.dem) if False else None
    fs=[f for m in c.mods for f in m.fns.values() if 'fnv1a_hasher<unsigned int' in f.dem and 'operator()' in f.dem and not f.isdecl and 'user<' not in f.dem]
    if not fs: raise Unsupported('hash function not found')
    fn=c.mods[0].load_fn(fs[0])
    st=State(); N=z3.BitVec('N',64); st.assume(z3.ULE(N,BV(1<<40))); buf=ex.new_bytes(st,'key',BV(16)+N); A=st.objs[buf.obj].fields[0]; st.objs[buf.obj].ro=True
    st.assume(FNV(BV(0))==SEED)
    st.schemas.append(Schema('fold',[z3.BitVecSort(64)],lambda i:FNV(i+1)==(FNV(i)^z3.ZeroExt(24,A.sel(simp(i+16))))*PRIME,['FNV']))
    ex.loopspecs=[FoldLoop(buf,BV(16),N)]
    self=ex.new_struct(st,'hasher',1)
    for kind,s,v in ex.start(st,fn,[self,buf.add(16),Ptr(buf.obj,16,((N,1),))]):
        if kind!='ret': ex.oblige(s,'no-throw',False); continue
        ex.oblige(s,'result is the FNV-1a fold of the bytes',v==FNV(N))
    ex.oblige(State(),'result is 32 bits wide',fn.ret[1]==32 if hasattr(fn,'ret') else True)
