"""C12 decimal conversions (string_conv.h)"""
from api import *
from models import *
tu('strconv','$VERIF/tu/strconv.cpp')
TYPES={'int8':('signed char',8,True),'int16':('short',16,True),'int32':('int',32,True),'int64':('long',64,True),
       'uint8':('unsigned char',8,False),'uint16':('unsigned short',16,False),'uint32':('unsigned int',32,False),'uint64':('unsigned long',64,False)}
MAXLEN={'int8':4,'int16':6,'int32':11,'int64':20,'uint8':3,'uint16':5,'uint32':10,'uint64':20}
D3=[z3.Function('D3_%d'%k,z3.BitVecSort(12),z3.BitVecSort(8)) for k in range(3)]
D2=[z3.Function('D2_%d'%k,z3.BitVecSort(12),z3.BitVecSort(8)) for k in range(2)]
def ax3(r):
    d=[z3.ZeroExt(4,D3[k](r)) for k in range(3)]
    return z3.Implies(z3.ULT(r,BV(1000,12)),z3.And(*[z3.ULE(x,BV(9,12)) for x in d]+[d[0]*100+d[1]*10+d[2]==r,(d[0]!=0)==z3.UGE(r,BV(100,12))]))
def ax2(r):
    d=[z3.ZeroExt(4,D2[k](r)) for k in range(2)]
    return z3.Implies(z3.ULT(r,BV(100,12)),z3.And(*[z3.ULE(x,BV(9,12)) for x in d]+[d[0]*10+d[1]==r,(d[0]!=0)==z3.UGE(r,BV(10,12))]))
class TableContract:
    def __init__(s,n,D,ax,lim): s.n=n;s.D=D;s.ax=ax;s.lim=lim
    def apply(s,ex,st,fn,args,I):
        idx=args[0]
        for ab in st.ghost.get('subst',()): idx=z3.substitute(idx,ab)
        idx=simp(idx)
        # index = n*r + k
        k=0;r=None
        e=idx
        if z3.is_app_of(e,z3.Z3_OP_BADD) and e.num_args()==2 and isc(e.arg(0)): k=e.arg(0).as_long(); e=e.arg(1)
        if z3.is_app_of(e,z3.Z3_OP_BMUL) and isc(e.arg(0)) and e.arg(0).as_long()==s.n: r=e.arg(1)
        if r is None or k>=s.n: raise Unsupported('digit table index %s'%idx)
        ex.oblige(st,'pre:digit_table.index',z3.And(z3.ULT(r,BV(s.lim)),idx==r*s.n+k),'pre',I.line)
        r12=simp(z3.Extract(11,0,r))
        st.assume(s.ax(r12))
        # zero-extended form used by the arithmetic over 64 bits
        st.assume(z3.ZeroExt(52,r12)==r)
        lin=sum((z3.ZeroExt(56,s.D[j](r12))*BV(10**(s.n-1-j)) for j in range(s.n-1)),z3.ZeroExt(56,s.D[s.n-1](r12)))
        if z3.is_const(r) and r.decl().name() not in [x for x,_ in st.ghost.get('lin',())]:
            ex.oblige(st,'lemma:digits of remainder',lin==r,'lemma',I.line); st.assume(lin==r)
            st.ghost['lin']=st.ghost.get('lin',())+((r.decl().name(),(r,lin)),)
        return [('ret',st,BV(48,8)+s.D[k](r12))]
def fmt(c,tn,case):
    tname,w,sg=TYPES[tn]
    ex=c.ex('int_to_str<%s>%s'%(tn,case),stubs=EC_STUBS)
    ex.div_fresh=True; ex.feas_ms=400
    ex.contracts={'cachelot::internal::int_to_str_impl::_3digit_table':TableContract(3,D3,ax3,1000),'cachelot::internal::int_to_str_impl::_2digit_table':TableContract(2,D2,ax2,100)}
    fn=c.fn('cachelot::int_to_str',lambda f:'<%s, char*>'%tname in f.dem)
    st=State(); M=z3.BitVec('M',64); ex.ub={}
    if case=='+': hi=(1<<(w-1))-1 if sg else (1<<w)-1; arg=M; lo=0
    else: hi=1<<(w-1); arg=-M; lo=1
    ex.ub[M.get_id()]=hi; ex.keepub=[M]
    st.assume(z3.ULE(M,BV(hi))); st.assume(z3.UGE(M,BV(lo)))
    arg=simp(z3.Extract(w-1,0,arg)) if w<64 else simp(arg)
    dst=ex.new_bytes(st,'dest',BV(64)); D0=st.objs[dst.obj].fields[0]
    lens=set()
    outs=ex.start(st,fn,[arg,dst.add(8)])
    for kind,s,v in outs:
        if kind!='ret': ex.oblige(s,'no-throw',False,'post'); continue
        L=simp(v)
        if not isc(L):
            r=ex.resolve_const(s,Ptr(None,0,((L,1),)))
            if r is None: raise Unsupported('length not constant on path')
            L=BV(r.c)
        n=L.as_long(); lens.add(n)
        ex.oblige(s,'length<=max_str_length',n<=MAXLEN[tn] and n>=1,'post')
        FA_=s.objs[dst.obj].fields[0]
        ch=[FA_.sel(BV(8+i)) for i in range(min(n,24))]
        if case=='-':
            ex.oblige(s,'minus sign',ch[0]==BV(45,8),'post'); ch=ch[1:]
        ex.oblige(s,'all digits',z3.And(*[z3.And(z3.UGE(x,BV(48,8)),z3.ULE(x,BV(57,8))) for x in ch]),'post')
        ex.oblige(s,'no leading zero',z3.Or(ch[0]!=BV(48,8),z3.BoolVal(len(ch)==1)),'post')
        tot=BV(0)
        for x in ch: tot=tot*10+z3.ZeroExt(56,simp(x-48))
        m=M
        for ab in s.ghost.get('subst',()): m=z3.substitute(m,ab)
        m=z3.substitute(m,*[x for _,x in s.ghost.get('lin',())]) if s.ghost.get('lin') else m
        ex.oblige(s,'digits denote the value',tot==m,'post')
        # nothing outside dest[0,length) is written
        ix=FreshBV('ix',64)
        ex.oblige(s,'frame',z3.Implies(z3.Or(z3.ULT(ix,BV(8)),z3.UGE(ix,BV(8+n))),FA_.sel(ix)==D0.sel(ix)),'frame')
    c.notes.append('%s%s lengths %s'%(tn,case,sorted(lens)))
    want=set(range(1,(MAXLEN[tn] if not sg else MAXLEN[tn]-1)+1)); want={x+(1 if case=='-' else 0) for x in want}
    ex.oblige(State(),'cover: every length reachable',lens==want,'cover')
def mk(tn,case):
    @target('C12.int_to_str<%s>%s'%(tn,case),'C12 C10','strconv',funcs=['int_to_str<%s>'%tn,'int_to_str_impl::convert<%s>'%tn])
    def t(c): fmt(c,tn,case)
for tn in TYPES:
    mk(tn,'+')
    if TYPES[tn][2]: mk(tn,'-')
@target('C12.digit_tables','C12 C10','strconv',funcs=['int_to_str_impl::_3digit_table','int_to_str_impl::_2digit_table'])
def tables(c):
    for nm,n,lim in(('_3digit_table',3,1000),('_2digit_table',2,100)):
        ex=c.ex(nm); fn=c.fn('cachelot::internal::int_to_str_impl::'+nm)
        st=State(); idx=z3.BitVec('idx',64); st.assume(z3.ULT(idx,BV(n*lim)))
        for kind,s,v in ex.start(st,fn,[idx]):
            i12=z3.Extract(11,0,idx); r=z3.UDiv(i12,BV(n,12)); k=z3.URem(i12,BV(n,12))
            dig=[z3.UDiv(r,BV(10**(n-1-j),12)) for j in range(n)]; dig=[z3.URem(d,BV(10,12)) for d in dig]
            e=dig[n-1]
            for j in range(n-1): e=z3.If(k==j,dig[j],e)
            ex.oblige(s,'entry is the decimal digit',v==BV(48,8)+z3.Extract(7,0,e),'post')
# ---- parsing
NUMCONV,NUMOVF=ERR['numeric_convert'],ERR['numeric_overflow']
def bad_char(A,N,s):
    """some character of the text is not a digit (witness: the position the code looked at)"""
    return z3.Or(*[z3.And(z3.ULT(t-BV(16),N),z3.UGE(t,BV(16)),z3.Not(isdig(A.sel(t)))) for t in indices(A,s)])
def indices(A,s):
    """index terms at which the path examined the text"""
    out={}; seen=set(); st=list(s.pc)
    while st:
        t=st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app_of(t,z3.Z3_OP_SELECT) and t.arg(0).eq(A.a): out[t.arg(1).get_id()]=t.arg(1)
        st.extend(t.children())
    return list(out.values())
def isdig(x): return z3.And(z3.UGE(x,BV(48,8)),z3.ULE(x,BV(57,8)))
class DigitLoop(LoopSpec):
    """for (iter = str; iter < end; ++iter) if (!isdigit(*iter)) fail"""
    def __init__(s,obj): s.name='digit-check'; s.obj=obj; s.variant=None; s.havoc_ghost=None
    def match(s,ex,st,fr,header): return fr.fn.qual.startswith('cachelot::internal::str_to_') or fr.fn.qual.startswith('std::')
    def bindings(s,ex,st,header,body):
        # the cursor: a local of the looping frame that points into the input buffer and is changed by the loop
        fr=st.frames[-1]; c=[]
        for n,oid in fr.names.items():
            o=st.objs.get(oid)
            if isinstance(o,Struct) and o.cells.get(0) and isinstance(o.cells[0][1],Ptr) and o.cells[0][1].obj==s.obj: c.append(oid)
        pref=[x for x in c if x.startswith(('iter','it!','p!','i!','c!'))]
        c=pref+[x for x in c if x not in pref]
        if not c: raise Unsupported('no cursor in digit loop')
        s.start={}
        return [{'cur':x,'start':st.objs[x].cells[0][1]} for x in c]
    def inv(s,lv):
        cur=lv.local('cur').off(); st0=lv.bind['start'].off(); E=lv.st.ghost['end']; A=lv.st.ghost['A']
        return [('range',z3.And(z3.ULE(st0,cur),z3.ULE(cur,E))),
                ('digits so far',Forall([z3.BitVecSort(64)],lambda i:z3.Implies(z3.And(z3.ULE(st0,i),z3.ULT(i,cur)),isdig(A.sel(i))),[A.a],'dg'))]
    def variant(s,lv): return lv.st.ghost['end']-lv.local('cur').off()
    variant=variant
def dg(x,w): return z3.ZeroExt(w-8,x)-BV(48,w)
def horner(chs,w):
    v=BV(0,w)
    for x in chs: v=v*10+dg(x,w)
    return v
class Abstract:
    """names for the digits and the numbers denoted by the prefixes of the text.  Each name is introduced by a
    definitional equality; code expressions that compute a digit are rewritten to the name after proving they equal it."""
    def __init__(s,c,ex,chars):
        s.ex=ex; s.ch=chars; s.d=[z3.BitVec('dig%d'%i,64) for i in range(len(chars))]; s.rw=[]
        x=z3.BitVec('chr',8)
        for i,t in enumerate(chars):
            for w1 in(32,64):
                for kind in(z3.SignExt,z3.ZeroExt):
                    e=simp(kind(w1-8,t)-BV(48,w1))
                    for k2 in((z3.SignExt,z3.ZeroExt) if w1==32 else (None,)):
                        e2=simp(k2(32,e)) if k2 else e
                        s.rw.append((e2,s.d[i]))
        for w1 in(32,64):
            for kind in(z3.SignExt,z3.ZeroExt):
                e=kind(w1-8,x)-BV(48,w1)
                for k2 in((z3.SignExt,z3.ZeroExt) if w1==32 else (None,)):
                    c.lemma(ex,'digit expression',z3.Implies(isdig(x),(k2(32,e) if k2 else e)==dg(x,64)))
        c.lemma(ex,'digit range',z3.Implies(isdig(x),z3.ULE(dg(x,64),BV(9))))
    def R(s,e): return simp(z3.substitute(simp(e),*s.rw))
    def facts(s): return [z3.ULE(d,BV(9)) for d in s.d]
    def value(s,n,w=64):
        v=BV(0,w)
        for d in s.d[:n]: v=v*10+(z3.ZeroExt(w-64,d) if w>64 else d)
        return simp(v)
class DL(DigitLoop): pass
def parse_setup(c,name):
    ex=c.ex(name,stubs=EC_STUBS); ex.feas_ms=300; ex.trusted.add(TRUST_EC); ex.trusted.add('isdigit() is true exactly for bytes 48..57 (C locale)')
    st=State(); N=z3.BitVec('N',64); st.assume(z3.ULE(N,BV(1<<40)))
    off=BV(16)
    buf=ex.new_bytes(st,'in',off+N)
    st.ghost['A']=st.objs[buf.obj].fields[0]; st.ghost['end']=simp(off+N)
    sp=DL(buf.obj); 
    sp.variant=lambda lv: lv.st.ghost['end']-lv.local('cur').off()
    ex.loopspecs=[sp]
    ec=new_ec(ex,st)
    return ex,st,buf,N,ec
@target('C12.str_to_big_unsigned','C12 C14 C10','strconv',funcs=['internal::str_to_big_unsigned','internal::str_to_big_unsigned_impl<N>::convert'])
def parse_u(c):
    ex,st,buf,N,ec=parse_setup(c,'str_to_big_unsigned')
    fn=c.fn('cachelot::internal::str_to_big_unsigned'); A=st.ghost['A']
    outs=ex.start(st,fn,[buf.add(16),Ptr(buf.obj,16,((N,1),)),ec])
    lens=set(); ch20=[A.sel(BV(16+i)) for i in range(20)]; ab=Abstract(c,ex,ch20)
    H=z3.BitVec('H19',64); elim=(ab.d[18],H-ab.value(18)*10)   # H := number denoted by the first 19 digits
    def abst(e): return simp(z3.substitute(ab.R(e),elim))
    def wide(s,goal):
        """obligation over the abstraction: head of 19 digits (<10^19) and the last digit"""
        st=State(); st.assume([abst(f) for f in s.pc]); st.assume(z3.ULE(ab.d[19],BV(9))); st.assume(z3.ULE(H,BV(10**19-1))); return st
    L=z3.ZeroExt(8,ab.d[19]); V20=z3.ZeroExt(8,H)*10+L
    for kind,s,v in outs:
        if kind!='ret': ex.oblige(s,'no-throw',False); continue
        err=ec_val(ex,s,ec); good=simp(err==0)
        r=ex.resolve_const(s,Ptr(None,0,((N,1),))); n=None if r is None else r.c
        if not z3.is_false(good):
            if n is None: raise Unsupported('accepted length not constant')
            lens.add(n); ch=ch20[:min(n,20)]
            ex.oblige(s,'accepts 1..20 characters',1<=n<=20)
            ex.oblige(s,'accepts digits only',z3.And(*[isdig(x) for x in ch]))
            if n<20: 
                st2=State(); st2.assume([ab.R(f) for f in s.pc]); st2.assume(ab.facts()); st2.assume([ab.d[i]==dg(ch20[i],64) for i in range(n)])
                ex.oblige(st2,'result is the denoted value',ab.R(v)==ab.value(n))
            else:
                st2=wide(s,None)
                ex.oblige(st2,'accepts only values that fit 64 bits',z3.ULE(V20,BV((1<<64)-1,72)))
                ex.oblige(st2,'result is the denoted value',z3.ZeroExt(8,abst(v))==V20)
        if not z3.is_true(good):
            ex.oblige(s,'error kind',z3.Or(good,err==NUMCONV,err==NUMOVF))
            if n==20:
                st2=wide(s,None); st2.assume([z3.Not(good)]+[isdig(x) for x in ch20])
                ex.oblige(st2,'rejects 20 digits only on overflow',z3.UGT(V20,BV((1<<64)-1,72)))
            elif n is not None:
                ex.oblige(s,'rejects only malformed text',z3.Or(good,z3.BoolVal(n==0),*[z3.Not(isdig(x)) for x in ch20[:n]]))
            else:
                ex.oblige(s,'rejects only malformed or over-long text',z3.Or(good,N==0,z3.UGT(N,BV(20)),bad_char(A,N,s)))
    ex.oblige(State(),'cover: all lengths 1..20 accepted',lens==set(range(1,21)),'cover')
    # lemma: a prefix of k digits denotes a number < 10^k, so 19 digits never wrap 64 bits
    v=z3.BitVec('v',72); d=z3.BitVec('d',64)
    for k in range(0,19):
        c.lemma(ex,'digit-bound[%d]'%k,z3.Implies(z3.And(z3.ULE(v,BV(10**k-1,72)),z3.ULE(d,BV(9))),z3.And(z3.ULE(v*10+z3.ZeroExt(8,d),BV(10**(k+1)-1,72)),z3.Extract(63,0,v)*10+d==z3.Extract(63,0,v*10+z3.ZeroExt(8,d)))))

class BigUnsigned:
    """contract of str_to_big_unsigned proved above: either the denoted value and no error, or an error"""
    def apply(s,ex,st,fn,a,I):
        ex.oblige(st,'pre:error clear on entry',z3.Not(ec_failed(ex,st,a[2])),'pre',I.line)
        ex.oblige(st,'pre:range',z3.And(z3.BoolVal(a[0].obj==a[1].obj),z3.ULE(a[0].off(),a[1].off())),'pre',I.line)
        ok=st.fork(); ok.ghost['call']=(a[0].off(),a[1].off(),True)
        err=FreshBV('err',32); st.assume(z3.Or(err==NUMCONV,err==NUMOVF)); ec_set(ex,st,a[2],err,cat_ptr(st,CAT_CACHELOT)); st.ghost['call']=(a[0].off(),a[1].off(),False); st.ghost['err']=err
        return [('ret',ok,z3.BitVec('V',64)),('ret',st,FreshBV('any',64))]
def parse_T(c,tn):
    tname,w,sg=TYPES[tn]
    ex=c.ex('str_to_int<%s>'%tn,stubs=EC_STUBS,contracts={'cachelot::internal::str_to_big_unsigned':BigUnsigned()}); ex.trusted.add(TRUST_EC)
    fn=c.fn('cachelot::str_to_int',lambda f:'%s cachelot::str_to_int<%s, '%(tname,tname) in f.dem)
    st=State(); N=z3.BitVec('N',64); st.assume(z3.ULE(N,BV(1<<40))); buf=ex.new_bytes(st,'in',BV(16)+N); A=st.objs[buf.obj].fields[0]; ec=new_ec(ex,st)
    V=z3.BitVec('V',64); E=BV(16)+N; seen=set()
    for kind,s,v in ex.start(st,fn,[buf.add(16),Ptr(buf.obj,16,((N,1),)),ec]):
        if kind!='ret': ex.oblige(s,'no-throw',False); continue
        call=s.ghost.get('call'); err=ec_val(ex,s,ec)
        if call is None:
            # decided without the parser: only malformed text may be rejected this way
            ex.oblige(s,'every well-formed text is parsed',z3.And(err==NUMCONV,z3.Or(N==0))); continue
        b,e,ok=call; neg=z3.And(N!=0,A.sel(BV(16))==45) if sg else z3.BoolVal(False)
        ex.oblige(s,'whole text is parsed, sign skipped only for signed types',z3.And(e==E,b==z3.If(neg,BV(17),BV(16))))
        if not ok:
            ex.oblige(s,'parse error is reported',err==s.ghost['err']); seen.add('err'); continue
        x=z3.ZeroExt(8,V); m=z3.If(neg,-x,x); lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if sg else (0,(1<<w)-1)
        fits=z3.And(m>=BV(lo&((1<<72)-1),72),m<=BV(hi,72))
        ext=(z3.SignExt if sg else z3.ZeroExt)(72-w,v)
        ex.oblige(s,'value in range is returned',z3.Implies(fits,z3.And(err==0,ext==m)))
        ex.oblige(s,'value out of range is an overflow error',z3.Implies(z3.Not(fits),err==NUMOVF)); seen.add('ok')
    ex.oblige(State(),'cover',seen=={'err','ok'},'cover')
def mkp(tn):
    @target('C12.str_to_int<%s>'%tn,'C12 C14 C10','strconv',funcs=['str_to_int<%s>'%tn,'internal::str_to_%ssigned<%s>'%('' if TYPES[tn][2] else 'un',tn)]+(['internal::str_to_big_signed'] if TYPES[tn][2] else []))
    def t(c): parse_T(c,tn)
for tn in TYPES: mkp(tn)
