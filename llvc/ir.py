"""LLVM IR reader: loads the IR that clang emits for the real sources (through the LLVM-C API) into plain Python objects."""
import ctypes as C, subprocess, re
_L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM-18.so')
P = C.c_void_p
def _f(name, res, *args):
    fn = getattr(_L, name); fn.restype = res; fn.argtypes = list(args); return fn
CtxCreate=_f('LLVMContextCreate',P)
MemBuf=_f('LLVMCreateMemoryBufferWithContentsOfFile',C.c_int,C.c_char_p,C.POINTER(P),C.POINTER(C.c_char_p))
ParseIR=_f('LLVMParseIRInContext',C.c_int,P,P,C.POINTER(P),C.POINTER(C.c_char_p))
FirstFn=_f('LLVMGetFirstFunction',P,P); NextFn=_f('LLVMGetNextFunction',P,P)
FirstGl=_f('LLVMGetFirstGlobal',P,P); NextGl=_f('LLVMGetNextGlobal',P,P)
FirstAl=_f('LLVMGetFirstGlobalAlias',P,P); NextAl=_f('LLVMGetNextGlobalAlias',P,P); Aliasee=_f('LLVMAliasGetAliasee',P,P)
ValName=_f('LLVMGetValueName2',C.c_char_p,P,C.POINTER(C.c_size_t))
IsDecl=_f('LLVMIsDeclaration',C.c_int,P)
CountParams=_f('LLVMCountParams',C.c_uint,P); GetParam=_f('LLVMGetParam',P,P,C.c_uint)
FirstBB=_f('LLVMGetFirstBasicBlock',P,P); NextBB=_f('LLVMGetNextBasicBlock',P,P); BBName=_f('LLVMGetBasicBlockName',C.c_char_p,P)
BBAsVal=_f('LLVMBasicBlockAsValue',P,P)
FirstI=_f('LLVMGetFirstInstruction',P,P); NextI=_f('LLVMGetNextInstruction',P,P)
Opc=_f('LLVMGetInstructionOpcode',C.c_int,P); TypeOf=_f('LLVMTypeOf',P,P)
NumOps=_f('LLVMGetNumOperands',C.c_int,P); GetOp=_f('LLVMGetOperand',P,P,C.c_uint)
ICmpPred=_f('LLVMGetICmpPredicate',C.c_int,P)
NumSucc=_f('LLVMGetNumSuccessors',C.c_uint,P); GetSucc=_f('LLVMGetSuccessor',P,P,C.c_uint)
IsCond=_f('LLVMIsConditional',C.c_int,P); GetCond=_f('LLVMGetCondition',P,P)
AllocTy=_f('LLVMGetAllocatedType',P,P); GEPTy=_f('LLVMGetGEPSourceElementType',P,P)
CountInc=_f('LLVMCountIncoming',C.c_uint,P); IncVal=_f('LLVMGetIncomingValue',P,P,C.c_uint); IncBB=_f('LLVMGetIncomingBlock',P,P,C.c_uint)
CalledVal=_f('LLVMGetCalledValue',P,P); NumArgs=_f('LLVMGetNumArgOperands',C.c_uint,P)
NormalDest=_f('LLVMGetNormalDest',P,P); UnwindDest=_f('LLVMGetUnwindDest',P,P)
NumClauses=_f('LLVMGetNumClauses',C.c_uint,P); GetClause=_f('LLVMGetClause',P,P,C.c_uint); IsCleanup=_f('LLVMIsCleanup',C.c_int,P)
NumIdx=_f('LLVMGetNumIndices',C.c_uint,P); GetIdx=_f('LLVMGetIndices',C.POINTER(C.c_uint),P)
VKind=_f('LLVMGetValueKind',C.c_int,P); ZExt=_f('LLVMConstIntGetZExtValue',C.c_ulonglong,P)
IntW=_f('LLVMGetIntTypeWidth',C.c_uint,P); TKind=_f('LLVMGetTypeKind',C.c_int,P)
StructN=_f('LLVMCountStructElementTypes',C.c_uint,P); StructT=_f('LLVMStructGetTypeAtIndex',P,P,C.c_uint)
ArrLen=_f('LLVMGetArrayLength2',C.c_uint64,P); ElemT=_f('LLVMGetElementType',P,P)
ABISize=_f('LLVMABISizeOfType',C.c_ulonglong,P,P); OffOf=_f('LLVMOffsetOfElement',C.c_ulonglong,P,P,C.c_uint)
ModDL=_f('LLVMGetModuleDataLayout',P,P); GetInit=_f('LLVMGetInitializer',P,P); IsGlConst=_f('LLVMIsGlobalConstant',C.c_int,P)
AggEl=_f('LLVMGetAggregateElement',P,P,C.c_uint); ConstOpc=_f('LLVMGetConstOpcode',C.c_int,P)
DbgLine=_f('LLVMGetDebugLocLine',C.c_uint,P); GlobalValTy=_f('LLVMGlobalGetValueType',P,P)
EnumAttr=_f('LLVMGetEnumAttributeAtIndex',P,P,C.c_uint,C.c_uint); AttrKind=_f('LLVMGetEnumAttributeKindForName',C.c_uint,C.c_char_p,C.c_size_t)
CSAttr=_f('LLVMGetCallSiteEnumAttribute',P,P,C.c_uint,C.c_uint)
PrintVal=_f('LLVMPrintValueToString',C.c_char_p,P)
IsString=_f('LLVMIsConstantString',C.c_int,P); AsString=_f('LLVMGetAsString',P,P,C.POINTER(C.c_size_t))
PIdx=_f('LLVMGetPoison',P,P)
OPC={1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',53:'extractvalue',54:'insertvalue',55:'fence',56:'cmpxchg',57:'rmw',58:'resume',59:'landingpad',60:'addrspacecast',66:'fneg',68:'freeze'}
PRED={32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
class Inst:
    __slots__=('op','id','ty','ops','x','line','name','blk','ix')
class Block:
    __slots__=('name','insts','idx','succ')
class Fn:
    __slots__=('name','dem','qual','args','argnames','blocks','ptr','mod','isdecl','nounwind','loops','noreturn','retty','argattr')
class Module:
    def __init__(self, path):
        self.path=path
        ctx=CtxCreate(); buf=P(); msg=C.c_char_p()
        if MemBuf(path.encode(),C.byref(buf),C.byref(msg)): raise RuntimeError(msg.value)
        m=P()
        if ParseIR(ctx,buf,C.byref(m),C.byref(msg)): raise RuntimeError(msg.value)
        self.m=m; self.dl=ModDL(m); self._ty={}; self.fns={}; self.globals={}; self.alias={}
        nu=AttrKind(b'nounwind',8); nr=AttrKind(b'noreturn',8)
        self._nu=nu; self._nr=nr
        f=FirstFn(m)
        names=[]
        while f:
            fn=Fn(); fn.ptr=f; fn.name=self._name(f); fn.isdecl=bool(IsDecl(f)); fn.mod=self; fn.blocks=None
            fn.nounwind=bool(EnumAttr(f,0xFFFFFFFF,nu)); fn.noreturn=bool(EnumAttr(f,0xFFFFFFFF,nr))
            self.fns[fn.name]=fn; names.append(fn.name); f=NextFn(f)
        g=FirstGl(m)
        while g:
            self.globals[self._name(g)]=g; g=NextGl(g)
        a=FirstAl(m)
        while a:
            self.alias[self._name(a)]=self._name(Aliasee(a)); a=NextAl(a)
        dem=subprocess.run(['/usr/bin/llvm-cxxfilt-18'] if _have('/usr/bin/llvm-cxxfilt-18') else ['c++filt'],input='\n'.join(names),capture_output=True,text=True).stdout.split('\n')
        for n,d in zip(names,dem):
            self.fns[n].dem=d; self.fns[n].qual=qualname(d)
        self._byqual={}
        for n in names: self._byqual.setdefault(self.fns[n].qual,[]).append(self.fns[n])
    def find(self, qual, pred=None):
        r=[f for f in self._byqual.get(qual,[]) if not f.isdecl]
        if pred: r=[f for f in r if pred(f)]
        return r
    def _name(self,v):
        n=C.c_size_t(); return ValName(v,C.byref(n)).decode('utf8','replace')
    def ty(self,t):
        r=self._ty.get(t)
        if r is not None: return r
        k=TKind(t)
        if k==0: r=('void',)
        elif k in(2,3): r=('fp',k)
        elif k==8: r=('int',IntW(t))
        elif k==10: r=('struct',tuple((OffOf(self.dl,t,i),self.ty(StructT(t,i))) for i in range(StructN(t))),ABISize(self.dl,t))
        elif k==11: r=('array',ArrLen(t),self.ty(ElemT(t)),ABISize(self.dl,ElemT(t)))
        elif k==12: r=('ptr',)
        else: r=('other',k)
        self._ty[t]=r; return r
    def size(self,T):
        k=T[0]
        if k=='int': return (T[1]+7)//8 if T[1]<=64 else T[1]//8
        if k=='ptr': return 8
        if k=='fp': return 4 if T[1]==2 else 8
        if k=='struct': return T[2]
        if k=='array': return T[1]*T[3]
        raise RuntimeError('size %r'%(T,))
    def val(self,v,idmap):
        """operand -> tuple"""
        k=VKind(v)
        if k in (0,24): # Argument, Instruction
            return ('r',idmap[v])
        if k==1: return ('bb',idmap[v])
        if k==5: return ('f',self._name(v))
        if k==6: return self.val(Aliasee(v),idmap)
        if k==8: return ('g',self._name(v))
        T=self.ty(TypeOf(v))
        if k==18:
            return ('i',T[1],ZExt(v)) if T[1]<=64 else ('i',T[1],_bigint(v))
        if k==20: return ('null',)
        if k in (14,25): return ('undef',T)   # undef / poison
        if k in (11,12,13): # array/struct/vector const
            return ('agg',T,[self.val(GetOp(v,i),idmap) for i in range(NumOps(v))])
        if k==15: return ('zero',T)
        if k in (16,17): # ConstantDataArray
            if IsString(v):
                n=C.c_size_t(); p=AsString(v,C.byref(n)); return ('str',T,C.string_at(p,n.value))
            return ('agg',T,[self.val(AggEl(v,i),idmap) for i in range(T[1])])
        if k==19: return ('fpc',T,None)
        if k==22: return ('md',)
        if k!=10: return ('unk',k,T)
        # constant expr
        op=OPC.get(ConstOpc(v))
        if True:
            if op=='gep':
                return ('ce','gep',self.ty(GEPTy(v)),[self.val(GetOp(v,i),idmap) for i in range(NumOps(v))])
            if op in('bitcast','addrspacecast'): return self.val(GetOp(v,0),idmap)
            if op in('ptrtoint','inttoptr','sub','add','trunc'):
                return ('ce',op,T,[self.val(GetOp(v,i),idmap) for i in range(NumOps(v))])
        return ('unk',k,T)
    def load_fn(self,fn):
        if fn.blocks is not None: return fn
        idmap={}; n=0; fn.args=[]; fn.argnames=[]
        for i in range(CountParams(fn.ptr)):
            a=GetParam(fn.ptr,i); idmap[a]=n; fn.args.append((n,self.ty(TypeOf(a)))); fn.argnames.append(self._name(a)); n+=1
        bbs=[]; b=FirstBB(fn.ptr)
        while b:
            idmap[BBAsVal(b)]=len(bbs); idmap[b]=len(bbs); bbs.append(b); b=NextBB(b)
        raw=[]
        for b in bbs:
            l=[]; i=FirstI(b)
            while i: l.append(i); idmap[i]=n; n+=1; i=NextI(i)
            raw.append(l)
        fn.blocks=[]
        for bi,(b,l) in enumerate(zip(bbs,raw)):
            B=Block(); B.name=BBName(b).decode(); B.idx=bi; B.insts=[]; B.succ=[]
            for i in l:
                I=Inst(); I.op=OPC.get(Opc(i),'op%d'%Opc(i)); I.id=idmap[i]; I.ty=self.ty(TypeOf(i)); I.x=None; I.line=DbgLine(i); I.name=self._name(i) if I.ty[0]!='void' else ''
                I.blk=bi; I.ix=len(B.insts)
                op=I.op
                if op in('call','invoke'):
                    cv=CalledVal(i); 
                    callee=self.val(cv,idmap) if VKind(cv)!=23 else ('asm',)
                    I.ops=[]
                    for k in range(NumArgs(i)):
                        o=GetOp(i,k)
                        try: I.ops.append(self.val(o,idmap))
                        except KeyError: I.ops.append(('md',))
                    nu=bool(CSAttr(i,0xFFFFFFFF,self._nu))
                    if op=='invoke': I.x=(callee,nu,idmap[NormalDest(i)],idmap[UnwindDest(i)]); B.succ=[I.x[2],I.x[3]]
                    else: I.x=(callee,nu,None,None)
                elif op=='br':
                    B.succ=[idmap[GetSucc(i,k)] for k in range(NumSucc(i))]
                    I.ops=[self.val(GetCond(i),idmap)] if IsCond(i) else []
                    I.x=B.succ
                elif op=='switch':
                    cond=self.val(GetOp(i,0),idmap); dflt=idmap[GetOp(i,1)]; cases=[]
                    for k in range(2,NumOps(i),2): cases.append((self.val(GetOp(i,k),idmap),idmap[GetOp(i,k+1)]))
                    I.ops=[cond]; I.x=(dflt,cases); B.succ=[dflt]+[c for _,c in cases]
                elif op=='phi':
                    I.ops=[]; I.x=[(self.val(IncVal(i,k),idmap),idmap[IncBB(i,k)]) for k in range(CountInc(i))]
                elif op=='alloca': I.ops=[self.val(GetOp(i,0),idmap)]; I.x=self.ty(AllocTy(i))
                elif op=='landingpad':
                    I.ops=[]; I.x=(bool(IsCleanup(i)),[self.val(GetClause(i,k),idmap) for k in range(NumClauses(i))])
                else:
                    I.ops=[self.val(GetOp(i,k),idmap) for k in range(NumOps(i))]
                    if op=='gep': I.x=self.ty(GEPTy(i))
                    elif op=='icmp': I.x=PRED[ICmpPred(i)]
                    elif op in('extractvalue','insertvalue'):
                        p=GetIdx(i); I.x=[p[k] for k in range(NumIdx(i))]
                    elif op=='store': I.x=self.ty(TypeOf(GetOp(i,0)))
                    elif op in('zext','sext','trunc','ptrtoint','inttoptr'): I.x=self.ty(TypeOf(GetOp(i,0)))
                B.insts.append(I)
            fn.blocks.append(B)
        fn.loops=find_loops(fn)
        return fn
def _have(p):
    import os; return os.path.exists(p)
def _bigint(v):
    s=PrintVal(v).decode().split()[1]; return int(s)
def find_loops(fn):
    """natural loops: header -> set(blocks)"""
    n=len(fn.blocks); preds=[[] for _ in range(n)]
    for b in fn.blocks:
        for s in set(b.succ): preds[s].append(b.idx)
    # dominators (simple iterative)
    full=set(range(n)); dom=[full.copy() for _ in range(n)]; dom[0]={0}
    order=[];seen=set()
    def dfs(b):
        stack=[(b,iter(fn.blocks[b].succ))]; seen.add(b)
        while stack:
            x,it=stack[-1]
            for s in it:
                if s not in seen: seen.add(s); stack.append((s,iter(fn.blocks[s].succ))); break
            else: order.append(x); stack.pop()
    dfs(0); rpo=order[::-1]
    ch=True
    while ch:
        ch=False
        for b in rpo[1:]:
            ps=[p for p in preds[b] if p in seen]
            new=set.intersection(*[dom[p] for p in ps])|{b} if ps else {b}
            if new!=dom[b]: dom[b]=new; ch=True
    loops={}
    for b in rpo:
        for s in fn.blocks[b].succ:
            if s in dom[b]:
                body=loops.setdefault(s,{s}); st=[b]
                while st:
                    x=st.pop()
                    if x not in body:
                        body.add(x); st.extend(p for p in preds[x] if p in seen)
    return loops
def strip_templates(d):
    """remove balanced <...> that are template argument lists"""
    out=[];depth=0;i=0
    d=d.replace('operator<<','operator\x01\x01').replace('operator<=','operator\x01=').replace('operator->','operator-\x02').replace('operator>>','operator\x02\x02').replace('operator>=','operator\x02=')
    d=re.sub(r'operator<(?=[ (])','operator\x01',d); d=re.sub(r'operator>(?=[ (])','operator\x02',d)
    d=d.replace('->','-\x02')
    for ch in d:
        if ch=='<': depth+=1
        elif ch=='>': depth-=1
        elif depth==0: out.append(ch)
    return ''.join(out).replace('\x01','<').replace('\x02','>')
def qualname(d):
    s=strip_templates(d).replace('(anonymous namespace)','{anon}').replace('operator()','operator\x03')
    # cut parameter list: first '(' at depth 0 not part of lambda
    s=re.sub(r"'lambda\d*'\(.*?\)","{lambda}",s); s=re.sub(r"\{lambda\([^{}]*?\)(#\d+)?\}","{lambda}",s)
    m=s.find('(')
    if m>=0: s=s[:m]
    s=s.replace('operator\x03','operator()')
    # drop return type
    if 'operator ' in s:
        h,t=s.split('operator ',1); h=h.split(' ')[-1]; s=h+'operator '+t
    else: s=s.split(' ')[-1] if ' ' in s else s
    s=re.sub(r'\[abi:[^\]]*\]','',s)
    return s.strip()
