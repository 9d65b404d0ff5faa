"""Loads LLVM bitcode (compiled from /repo's headers on this run) through the
LLVM-C API into small python objects.  Nothing is rewritten here: the verified
text is the compiler's own IR for the shipped source."""
import ctypes as C, subprocess, struct
_L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM-18.so')
P = C.c_void_p
def _f(name, res, *args):
    f = getattr(_L, name); f.restype = res; f.argtypes = list(args); return f
U = C.c_uint; I = C.c_int; S = C.c_char_p; U64 = C.c_uint64
ContextCreate=_f('LLVMContextCreate',P)
CreateMB=_f('LLVMCreateMemoryBufferWithContentsOfFile',I,S,C.POINTER(P),C.POINTER(S))
ParseIR=_f('LLVMParseIRInContext',I,P,P,C.POINTER(P),C.POINTER(S))
FirstFn=_f('LLVMGetFirstFunction',P,P); NextFn=_f('LLVMGetNextFunction',P,P)
FirstGl=_f('LLVMGetFirstGlobal',P,P); NextGl=_f('LLVMGetNextGlobal',P,P)
ValName=_f('LLVMGetValueName2',S,P,C.POINTER(C.c_size_t))
IsDecl=_f('LLVMIsDeclaration',I,P)
FirstBB=_f('LLVMGetFirstBasicBlock',P,P); NextBB=_f('LLVMGetNextBasicBlock',P,P)
FirstI=_f('LLVMGetFirstInstruction',P,P); NextI=_f('LLVMGetNextInstruction',P,P)
Opcode=_f('LLVMGetInstructionOpcode',I,P)
TypeOf=_f('LLVMTypeOf',P,P); TypeKind=_f('LLVMGetTypeKind',I,P)
IntW=_f('LLVMGetIntTypeWidth',U,P)
NumOps=_f('LLVMGetNumOperands',I,P); Op=_f('LLVMGetOperand',P,P,U)
StructN=_f('LLVMCountStructElementTypes',U,P); StructEl=_f('LLVMStructGetTypeAtIndex',P,P,U)
StructName=_f('LLVMGetStructName',S,P)
ElTy=_f('LLVMGetElementType',P,P); ArrLen=_f('LLVMGetArrayLength2',U64,P); VecN=_f('LLVMGetVectorSize',U,P)
DL=_f('LLVMGetModuleDataLayout',P,P)
ABISize=_f('LLVMABISizeOfType',C.c_ulonglong,P,P); OffEl=_f('LLVMOffsetOfElement',C.c_ulonglong,P,P,U)
ABIAlign=_f('LLVMABIAlignmentOfType',U,P,P)
NumParams=_f('LLVMCountParams',U,P); Param=_f('LLVMGetParam',P,P,U)
ICmpPred=_f('LLVMGetICmpPredicate',I,P); FCmpPred=_f('LLVMGetFCmpPredicate',I,P)
NSucc=_f('LLVMGetNumSuccessors',U,P); Succ=_f('LLVMGetSuccessor',P,P,U)
IncN=_f('LLVMCountIncoming',U,P); IncV=_f('LLVMGetIncomingValue',P,P,U); IncB=_f('LLVMGetIncomingBlock',P,P,U)
Called=_f('LLVMGetCalledValue',P,P); NArgOps=_f('LLVMGetNumArgOperands',U,P)
NormalDest=_f('LLVMGetNormalDest',P,P); UnwindDest=_f('LLVMGetUnwindDest',P,P)
NIdx=_f('LLVMGetNumIndices',U,P); Idx=_f('LLVMGetIndices',C.POINTER(U),P)
AllocTy=_f('LLVMGetAllocatedType',P,P); Align_=_f('LLVMGetAlignment',C.c_uint,P); GEPTy=_f('LLVMGetGEPSourceElementType',P,P)
IsCInt=_f('LLVMIsAConstantInt',P,P); CZ=_f('LLVMConstIntGetZExtValue',U64,P)
IsCFP=_f('LLVMIsAConstantFP',P,P); CReal=_f('LLVMConstRealGetDouble',C.c_double,P,C.POINTER(I))
IsNullP=_f('LLVMIsAConstantPointerNull',P,P); IsUndef=_f('LLVMIsUndef',I,P); IsPoison=_f('LLVMIsPoison',I,P)
IsAggZ=_f('LLVMIsAConstantAggregateZero',P,P)
IsCE=_f('LLVMIsAConstantExpr',P,P); CEOp=_f('LLVMGetConstOpcode',I,P)
IsFn=_f('LLVMIsAFunction',P,P); IsGV=_f('LLVMIsAGlobalVariable',P,P); IsGA=_f('LLVMIsAGlobalAlias',P,P)
Aliasee=_f('LLVMAliasGetAliasee',P,P)
IsCDS=_f('LLVMIsAConstantDataSequential',P,P); GetStr=_f('LLVMGetAsString',C.POINTER(C.c_char),P,C.POINTER(C.c_size_t))
IsString=_f('LLVMIsConstantString',I,P)
IsCAgg=_f('LLVMIsAConstantStruct',P,P); IsCArr=_f('LLVMIsAConstantArray',P,P)
AggEl=_f('LLVMGetAggregateElement',P,P,U)
GInit=_f('LLVMGetInitializer',P,P); GIsConst=_f('LLVMIsGlobalConstant',I,P); GValTy=_f('LLVMGlobalGetValueType',P,P)
IsArg=_f('LLVMIsAArgument',P,P); IsInst=_f('LLVMIsAInstruction',P,P)
DbgLine=_f('LLVMGetDebugLocLine',U,P)
DbgFile=_f('LLVMGetDebugLocFilename',P,P,C.POINTER(U))
GetEnumAttrKind=_f('LLVMGetEnumAttributeKindForName',U,S,C.c_size_t)
GetEnumAttr=_f('LLVMGetEnumAttributeAtIndex',P,P,U,U)
CSEnumAttr=_f('LLVMGetCallSiteEnumAttribute',P,P,U,U)
AttrTy=_f('LLVMGetTypeAttributeValue',P,P)
AtomicOp=_f('LLVMGetAtomicRMWBinOp',I,P)
FnRetTy=_f('LLVMGetReturnType',P,P)
IsClean=_f('LLVMIsCleanup',I,P)
CalledFnTy=_f('LLVMGetCalledFunctionType',P,P)
ParentFn=_f('LLVMGetBasicBlockParent',P,P)

OPN={1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',
29:'getelementptr',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',
42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',56:'cmpxchg',57:'atomicrmw',
58:'resume',59:'landingpad',60:'addrspacecast',66:'fneg',68:'freeze'}
IPRED={32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FPRED={0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

class Ty:
    __slots__=('k','w','els','offs','n','size','name','align')
    def __repr__(s):
        return {'i':f'i{s.w}','f':f'f{s.w}'}.get(s.k, s.k+(s.name or ''))
class Const:
    __slots__=('v','ty')
    def __init__(s,v,ty): s.v=v; s.ty=ty
    def __repr__(s): return f'C({s.v})'
class Undef:
    __slots__=('ty',)
    def __init__(s,ty): s.ty=ty
class Null:
    __slots__=('ty',)
    def __init__(s,ty): s.ty=ty
class Zero:
    __slots__=('ty',)
    def __init__(s,ty): s.ty=ty
class GRef:
    __slots__=('name',)
    def __init__(s,n): s.name=n
    def __repr__(s): return '@'+s.name
class FRef:
    __slots__=('name',)
    def __init__(s,n): s.name=n
    def __repr__(s): return '@'+s.name
class Ref:
    __slots__=('id',)
    def __init__(s,i): s.id=i
    def __repr__(s): return f'%{s.id}'
class CE:
    """constant expression gep/cast: op, operands, extra"""
    __slots__=('op','ops','x','ty')
class Agg:
    __slots__=('els','ty')
class Str:
    __slots__=('b','ty')

class Ins:
    __slots__=('op','ty','ops','x','id','line')
    def __repr__(s): return f'%{s.id}={s.op} {s.ops} {s.x}'
class BB:
    __slots__=('i','ins','succ','fn')
class Fn: pass

class Module:
    def __init__(self, path):
        ctx=ContextCreate(); mb=P(); msg=S()
        if CreateMB(path.encode(),C.byref(mb),C.byref(msg)): raise RuntimeError(msg.value)
        m=P()
        if ParseIR(ctx,mb,C.byref(m),C.byref(msg)): raise RuntimeError(msg.value)
        self.m=m; self.dl=DL(m); self.tyc={}
        self.sret=GetEnumAttrKind(b'sret',4); self.byval=GetEnumAttrKind(b'byval',5)
        self.fh={}; self.gh={}; self.alias={}
        f=FirstFn(m)
        while f:
            self.fh[self.name(f)]=f; f=NextFn(f)
        g=FirstGl(m)
        while g:
            self.gh[self.name(g)]=g; g=NextGl(g)
        self.fns={}
        names=list(self.fh)
        r=subprocess.run(['llvm-cxxfilt'],input='\n'.join(names),capture_output=True,text=True,check=True)
        self.dem=dict(zip(names,r.stdout.split('\n')))
        self.bydem={}
        for n,d in self.dem.items(): self.bydem.setdefault(d,[]).append(n)
    def name(self,v):
        n=C.c_size_t(); return ValName(v,C.byref(n)).decode()
    def ty(self,t):
        if t in self.tyc: return self.tyc[t]
        k=TypeKind(t); r=Ty(); r.name=''; r.els=None; r.w=0; r.n=0; r.size=0; r.align=1
        self.tyc[t]=r
        if k==0: r.k='void'
        elif k==2: r.k='f'; r.w=32; r.size=4
        elif k==3: r.k='f'; r.w=64; r.size=8
        elif k==4: r.k='f'; r.w=80; r.size=16
        elif k==8: r.k='i'; r.w=IntW(t); r.size=ABISize(self.dl,t)
        elif k==10:
            r.k='s'; n=StructN(t); r.els=[self.ty(StructEl(t,i)) for i in range(n)]
            nm=StructName(t); r.name=nm.decode() if nm else ''
            r.offs=[]
            try:
                r.size=ABISize(self.dl,t); r.offs=[OffEl(self.dl,t,i) for i in range(n)]
            except Exception: pass
        elif k==11: r.k='a'; r.n=ArrLen(t); r.els=[self.ty(ElTy(t))]; r.size=r.n*r.els[0].size
        elif k==12: r.k='p'; r.size=8; r.w=64
        elif k==13: r.k='v'; r.n=VecN(t); r.els=[self.ty(ElTy(t))]; r.size=ABISize(self.dl,t)
        elif k==9: r.k='fn'
        else: r.k='other%d'%k
        if r.k in 'ifspav' and r.size: r.align=ABIAlign(self.dl,t)
        return r
    def val(self,v,env):
        if IsArg(v) or IsInst(v): return Ref(env[v])
        ty=self.ty(TypeOf(v))
        if IsCInt(v):
            if ty.w>64: return Undef(ty)
            z=CZ(v)
            return Const(z & ((1<<ty.w)-1),ty)
        if IsNullP(v): return Null(ty)
        if IsCFP(v):
            lo=I(); return Const(CReal(v,C.byref(lo)),ty)
        if IsUndef(v) or IsPoison(v): return Undef(ty)
        if IsFn(v): return FRef(self.name(v))
        if IsGV(v): return GRef(self.name(v))
        if IsGA(v): return self.val(Aliasee(v),env)
        if IsAggZ(v): return Zero(ty)
        if IsCDS(v):
            if IsString(v):
                n=C.c_size_t(); p=GetStr(v,C.byref(n)); r=Str(); r.b=C.string_at(p,n.value); r.ty=ty; return r
            r=Agg(); r.ty=ty; r.els=[self.val(AggEl(v,i),env) for i in range(ty.n)]; return r
        if IsCAgg(v) or IsCArr(v):
            n=NumOps(v); r=Agg(); r.ty=ty; r.els=[self.val(Op(v,i),env) for i in range(n)]; return r
        if IsCE(v):
            r=CE(); r.op=OPN[CEOp(v)]; r.ty=ty; r.ops=[self.val(Op(v,i),env) for i in range(NumOps(v))]; r.x=None
            if r.op=='getelementptr': r.x=self.ty(GEPTy(v))
            return r
        return Undef(ty)
    def ginit(self,name):
        g=self.gh[name]
        i=GInit(g) if not IsDecl(g) else None
        return (self.ty(GValTy(g)), self.val(i,{}) if i else None, bool(GIsConst(g)))
    def defined(self,name):
        return name in self.fh and not IsDecl(self.fh[name])
    def fn(self,name):
        if name in self.fns: return self.fns[name]
        f=self.fh[name]; F=Fn(); F.name=name; F.dem=self.dem[name]
        F.nparams=NumParams(f); env={}
        F.ptypes=[]; F.sret=None; F.byval={}
        for i in range(F.nparams):
            a=Param(f,i); env[a]=i; F.ptypes.append(self.ty(TypeOf(a)))
            at=GetEnumAttr(f,i+1,self.sret)
            if at: F.sret=i; F.sretty=self.ty(AttrTy(at))
            at=GetEnumAttr(f,i+1,self.byval)
            if at: F.byval[i]=self.ty(AttrTy(at))
        bbs={}; order=[]; cnt=F.nparams
        b=FirstBB(f)
        while b:
            bbs[b]=len(order); order.append(b)
            i=FirstI(b)
            while i:
                env[i]=cnt; cnt+=1; i=NextI(i)
            b=NextBB(b)
        F.blocks=[]
        for bi,b in enumerate(order):
            B=BB(); B.i=bi; B.ins=[]; B.succ=[]; B.fn=F
            i=FirstI(b)
            while i:
                B.ins.append(self._ins(i,env,bbs,B)); i=NextI(i)
            F.blocks.append(B)
        self._loops(F)
        self.fns[name]=F
        return F
    def _ins(self,i,env,bbs,B):
        r=Ins(); r.op=OPN[Opcode(i)]; r.ty=self.ty(TypeOf(i)); r.id=env[i]; r.x=None; r.line=DbgLine(i) if r.op!='phi' else 0
        n=NumOps(i); op=r.op
        v=lambda k:self.val(Op(i,k),env)
        if op in('br','switch'):
            ns=NSucc(i); sc=[bbs[Succ(i,k)] for k in range(ns)]; B.succ=sc
            if op=='br': r.ops=[v(0)] if ns==2 else []; r.x=sc
            else:
                # operands: cond, default, (val,bb)*
                r.ops=[v(0)]; cases=[]
                for k in range(2,n,2): cases.append((self.val(Op(i,k),env).v, bbs[Op(i,k+1)]))
                r.x=(sc[0],cases)
        elif op in('call','invoke'):
            na=NArgOps(i); cv=Called(i)
            r.ops=[self.val(Op(i,k),env) if TypeKind(TypeOf(Op(i,k)))!=16 and TypeKind(TypeOf(Op(i,k)))!=14 else None for k in range(na)]
            x={}; 
            x['callee']=self.val(cv,env)
            at={}
            for k in range(na):
                a=CSEnumAttr(i,k+1,self.byval)
                if a: at[k]=self.ty(AttrTy(a))
            x['byval']=at
            if op=='invoke':
                x['normal']=bbs[NormalDest(i)]; x['unwind']=bbs[UnwindDest(i)]; B.succ=[x['normal'],x['unwind']]
            r.x=x
        elif op=='phi':
            r.ops=[]; r.x=[(bbs[IncB(i,k)],self.val(IncV(i,k),env)) for k in range(IncN(i))]
        elif op=='alloca':
            r.ops=[v(0)]; r.x=self.ty(AllocTy(i))
        elif op=='getelementptr':
            r.ops=[v(k) for k in range(n)]; r.x=self.ty(GEPTy(i))
        elif op in('extractvalue','insertvalue'):
            r.ops=[v(k) for k in range(n)]; k=NIdx(i); p=Idx(i); r.x=[p[j] for j in range(k)]
        elif op=='icmp': r.ops=[v(0),v(1)]; r.x=IPRED[ICmpPred(i)]
        elif op=='fcmp': r.ops=[v(0),v(1)]; r.x=FPRED[FCmpPred(i)]
        elif op=='atomicrmw': r.ops=[v(0),v(1)]; r.x=AtomicOp(i)
        elif op in('landingpad',): r.ops=[]
        else:
            r.ops=[v(k) for k in range(n)]
        if op=='load': r.x=Align_(i)
        return r
    def _loops(self,F):
        # natural loops via dominators (iterative)
        n=len(F.blocks); preds=[[] for _ in range(n)]
        for b in F.blocks:
            for s in b.succ: preds[s].append(b.i)
        F.preds=preds
        # rpo
        seen=set(); post=[]
        st=[(0,iter(F.blocks[0].succ))] if n else []
        if n: seen.add(0)
        while st:
            b,it=st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s,iter(F.blocks[s].succ))); break
            else:
                post.append(b); st.pop()
        rpo=post[::-1]; num={b:i for i,b in enumerate(rpo)}
        idom={0:0} if n else {}
        ch=True
        while ch:
            ch=False
            for b in rpo[1:]:
                ps=[p for p in preds[b] if p in idom]
                new=ps[0]
                for p in ps[1:]:
                    a=p; c=new
                    while a!=c:
                        while num[a]>num[c]: a=idom[a]
                        while num[c]>num[a]: c=idom[c]
                    new=a
                if idom.get(b)!=new: idom[b]=new; ch=True
        def dom(a,b):
            while True:
                if a==b: return True
                if b==0: return False
                b=idom[b]
        F.loops={}
        for b in rpo:
            for s in F.blocks[b].succ:
                if s in idom and dom(s,b):
                    body=F.loops.setdefault(s,{s})
                    st=[b]
                    while st:
                        x=st.pop()
                        if x in body: continue
                        body.add(x)
                        st.extend(p for p in preds[x] if p in idom)
        F.latches={h:[p for p in preds[h] if p in body] for h,body in F.loops.items()}
