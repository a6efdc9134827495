"""Thin ctypes layer over libLLVM-18: loads the textual IR that clang emitted from /repo's sources and
presents functions/blocks/instructions as small Python objects (built lazily, one function at a time)."""
import ctypes, os, glob
from ctypes import c_void_p, c_void_p as P, c_char_p, c_uint, c_int, c_ulonglong, c_longlong, c_size_t, POINTER, byref, c_double, c_bool

def _find():
    for c in ['/usr/lib/llvm-18/lib/libLLVM-18.so.1','/usr/lib/llvm-18/lib/libLLVM-18.so','/usr/lib/llvm-18/lib/libLLVM.so.18.1','/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1']:
        if os.path.exists(c): return c
    raise RuntimeError('libLLVM-18 not found')
L = ctypes.CDLL(_find())
def _f(name,res,*args):
    fn=getattr(L,name); fn.restype=res; fn.argtypes=list(args); return fn
CtxCreate=_f('LLVMContextCreate',P)
MBFile=_f('LLVMCreateMemoryBufferWithContentsOfFile',c_int,c_char_p,POINTER(P),POINTER(c_char_p))
ParseIR=_f('LLVMParseIRInContext',c_int,P,P,POINTER(P),POINTER(c_char_p))
FirstFn=_f('LLVMGetFirstFunction',P,P); NextFn=_f('LLVMGetNextFunction',P,P)
FirstGl=_f('LLVMGetFirstGlobal',P,P); NextGl=_f('LLVMGetNextGlobal',P,P)
FirstAl=_f('LLVMGetFirstGlobalAlias',P,P); NextAl=_f('LLVMGetNextGlobalAlias',P,P); AliasAliasee=_f('LLVMAliasGetAliasee',P,P)
_ValName=_f('LLVMGetValueName2',c_void_p,P,POINTER(c_size_t))
IsDecl=_f('LLVMIsDeclaration',c_int,P)
FirstBB=_f('LLVMGetFirstBasicBlock',P,P); NextBB=_f('LLVMGetNextBasicBlock',P,P)
FirstIn=_f('LLVMGetFirstInstruction',P,P); NextIn=_f('LLVMGetNextInstruction',P,P)
BBName=_f('LLVMGetBasicBlockName',c_char_p,P)
Opcode=_f('LLVMGetInstructionOpcode',c_int,P)
NumOps=_f('LLVMGetNumOperands',c_int,P); GetOp=_f('LLVMGetOperand',P,P,c_uint)
TypeOf=_f('LLVMTypeOf',P,P); TypeKind=_f('LLVMGetTypeKind',c_int,P)
IntWidth=_f('LLVMGetIntTypeWidth',c_uint,P)
ValKind=_f('LLVMGetValueKind',c_int,P)
ICmpPred=_f('LLVMGetICmpPredicate',c_int,P); FCmpPred=_f('LLVMGetFCmpPredicate',c_int,P)
NumParams=_f('LLVMCountParams',c_uint,P); GetParam=_f('LLVMGetParam',P,P,c_uint)
CalledVal=_f('LLVMGetCalledValue',P,P); NumArgs=_f('LLVMGetNumArgOperands',c_uint,P)
CalledFT=_f('LLVMGetCalledFunctionType',P,P)
NormalDest=_f('LLVMGetNormalDest',P,P); UnwindDest=_f('LLVMGetUnwindDest',P,P)
NumSucc=_f('LLVMGetNumSuccessors',c_uint,P); GetSucc=_f('LLVMGetSuccessor',P,P,c_uint)
IsCond=_f('LLVMIsConditional',c_int,P)
NumInc=_f('LLVMCountIncoming',c_uint,P); IncVal=_f('LLVMGetIncomingValue',P,P,c_uint); IncBB=_f('LLVMGetIncomingBlock',P,P,c_uint)
AllocTy=_f('LLVMGetAllocatedType',P,P); GEPTy=_f('LLVMGetGEPSourceElementType',P,P)
NumIdx=_f('LLVMGetNumIndices',c_uint,P); Idx=_f('LLVMGetIndices',POINTER(c_uint),P)
NumClauses=_f('LLVMGetNumClauses',c_uint,P); GetClause=_f('LLVMGetClause',P,P,c_uint); IsCleanup=_f('LLVMIsCleanup',c_int,P)
ConstOpc=_f('LLVMGetConstOpcode',c_int,P)
ZExt=_f('LLVMConstIntGetZExtValue',c_ulonglong,P)
RealD=_f('LLVMConstRealGetDouble',c_double,P,POINTER(c_int))
AggElem=_f('LLVMGetAggregateElement',P,P,c_uint)
IsStr=_f('LLVMIsConstantString',c_int,P); AsStr=_f('LLVMGetAsString',P,P,POINTER(c_size_t))
GlobInit=_f('LLVMGetInitializer',P,P); GlobIsConst=_f('LLVMIsGlobalConstant',c_int,P); GlobTy=_f('LLVMGlobalGetValueType',P,P)
DL=_f('LLVMGetModuleDataLayout',P,P); SizeOf=_f('LLVMABISizeOfType',c_ulonglong,P,P); StoreSize=_f('LLVMStoreSizeOfType',c_ulonglong,P,P)
OffElem=_f('LLVMOffsetOfElement',c_ulonglong,P,P,c_uint)
NumSE=_f('LLVMCountStructElementTypes',c_uint,P); SEty=_f('LLVMStructGetTypeAtIndex',P,P,c_uint)
EltTy=_f('LLVMGetElementType',P,P); ArrLen=_f('LLVMGetArrayLength2',c_ulonglong,P); VecLen=_f('LLVMGetVectorSize',c_uint,P)
StructName=_f('LLVMGetStructName',c_char_p,P)
RetTy=_f('LLVMGetReturnType',P,P)
DbgLine=_f('LLVMGetDebugLocLine',c_uint,P)
ToStr=_f('LLVMPrintValueToString',P,P); TyStr=_f('LLVMPrintTypeToString',P,P); DispMsg=_f('LLVMDisposeMessage',None,P)
BlockAsVal=_f('LLVMBasicBlockAsValue',P,P); ValAsBlock=_f('LLVMValueAsBasicBlock',P,P)
IntrID=_f('LLVMGetIntrinsicID',c_uint,P)
AtomBin=_f('LLVMGetAtomicRMWBinOp',c_int,P)
IsNUW=None

OPC={1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'getelementptr',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',47:'userop1',49:'vaarg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
ICMP={32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP={0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
# LLVMTypeKind
TK={0:'void',1:'half',2:'float',3:'double',4:'x86_fp80',5:'fp128',7:'label',8:'int',9:'func',10:'struct',11:'array',12:'ptr',13:'vector',14:'metadata',16:'token'}
# LLVMValueKind
VK={0:'arg',1:'bb',2:'mu',3:'mdef',4:'mphi',5:'func',6:'alias',7:'ifunc',8:'gvar',9:'blockaddr',10:'cexpr',11:'carray',12:'cstruct',13:'cvector',14:'undef',15:'zeroinit',16:'cdarray',17:'cdvector',18:'cint',19:'cfp',20:'null',21:'tnone',22:'mdval',23:'asm',24:'instr',25:'poison',26:'ttarget'}

class Ty:
    __slots__=('k','w','n','el','els','offs','size','store','name','ref')
    def __repr__(s): return {'int':'i%d'%(s.w or 0)}.get(s.k,s.k) if s.k!='array' else '[%d x %r]'%(s.n,s.el)

def _name(v):
    n=c_size_t(); p=_ValName(v,byref(n))
    return ctypes.string_at(p,n.value).decode('utf8','replace') if n.value else ''
def vstr(v):
    p=ToStr(v); s=ctypes.string_at(p).decode('utf8','replace'); DispMsg(p); return s

class Inst:
    __slots__=('op','ops','ty','id','extra','line','ref')
    def __repr__(s): return vstr(s.ref).strip()
class Block:
    __slots__=('name','insts','succs','idx','key','preds')
class Func:
    def __init__(s,mod,ref):
        s.mod=mod; s.ref=ref; s.name=_name(ref); s.decl=bool(IsDecl(ref)); s._blocks=None
        s.params=None
    @property
    def blocks(s):
        if s._blocks is None: s._build()
        return s._blocks
    def _build(s):
        m=s.mod; s.params=[('l',GetParam(s.ref,i)) for i in range(NumParams(s.ref))]
        s.param_tys=[m.ty(TypeOf(p[1])) for p in s.params]
        bbs=[]; b=FirstBB(s.ref)
        while b: bbs.append(b); b=NextBB(b)
        idx={b:i for i,b in enumerate(bbs)}
        s._blocks=[]
        for i,b in enumerate(bbs):
            B=Block(); B.idx=i; B.name=(BBName(b) or b'').decode(); B.insts=[]; B.key=b
            it=FirstIn(b)
            while it:
                B.insts.append(m.inst(it,idx)); it=NextIn(it)
            B.succs=B.insts[-1].extra.get('succ',[])
            s._blocks.append(B)
        for B in s._blocks: B.preds=[]
        for B in s._blocks:
            for t in B.succs: s._blocks[t].preds.append(B.idx)
        s._ipdom=None
        s.retty=m.ty(RetTy(GlobTy(s.ref)))
    # immediate post dominators (virtual exit = n), exceptional edges included
    @property
    def ipdom(s):
        s.blocks
        if s._ipdom is not None: return s._ipdom
        n=len(s._blocks); EX=n
        succ=[list(B.succs) or [EX] for B in s._blocks]
        # blocks that end in unreachable/resume: treat as having no effect on joins (exit)
        dead=[B.insts[-1].op in ('unreachable','resume') for B in s._blocks]
        # prune blocks which can only reach dead ends, so that joins ignore throw paths
        can=[False]*(n+1); can[EX]=True
        ch=True
        while ch:
            ch=False
            for i in range(n):
                if not can[i] and not dead[i] and any(can[t] for t in succ[i]): can[i]=True; ch=True
        full=set(range(n+1))
        pd=[{EX} if i==EX else set(full) for i in range(n+1)]
        ch=True
        while ch:
            ch=False
            for i in range(n-1,-1,-1):
                ss=[t for t in succ[i] if can[t]]
                if not ss: new={i,EX} if False else set(full)
                else:
                    new=set.intersection(*[pd[t] for t in ss])|{i}
                if new!=pd[i]: pd[i]=new; ch=True
        ip=[EX]*n
        for i in range(n):
            if not can[i]: ip[i]=EX; continue
            c=pd[i]-{i}
            # immediate: the one whose pd set is the largest
            best=EX; bl=-1
            for t in c:
                l=len(pd[t]) if t!=EX else 1
                if l>bl: bl=l; best=t
            ip[i]=best
        s._ipdom=ip
        return ip

class Module:
    def __init__(s,path):
        s.ctx=CtxCreate(); mb=P(); err=c_char_p()
        if MBFile(path.encode(),byref(mb),byref(err)): raise RuntimeError('cannot read '+path)
        m=P(); 
        if ParseIR(s.ctx,mb,byref(m),byref(err)): raise RuntimeError('cannot parse %s: %s'%(path,err.value))
        s.ref=m; s.path=path; s.dl=DL(m); s._ty={}
        s.funcs={}; f=FirstFn(m)
        while f: F=Func(s,f); s.funcs[F.name]=F; f=NextFn(f)
        s.globals={}; g=FirstGl(m)
        while g: s.globals[_name(g)]=g; g=NextGl(g)
        s.aliases={}; a=FirstAl(m)
        while a: s.aliases[_name(a)]=_name(AliasAliasee(a)); a=NextAl(a)
    def ty(s,t):
        r=s._ty.get(t)
        if r is not None: return r
        r=Ty(); s._ty[t]=r; r.ref=t; r.k=TK.get(TypeKind(t),'?'); r.w=r.n=r.el=r.els=r.offs=r.name=None; r.size=r.store=0
        if r.k=='int': r.w=IntWidth(t)
        if r.k in ('array',): r.el=s.ty(EltTy(t)); r.n=ArrLen(t)
        if r.k=='vector': r.el=s.ty(EltTy(t)); r.n=VecLen(t)
        if r.k=='struct':
            r.name=(StructName(t) or b'').decode()
            r.els=[s.ty(SEty(t,i)) for i in range(NumSE(t))]
            try: r.offs=[OffElem(s.dl,t,i) for i in range(len(r.els))]
            except Exception: r.offs=[]
        if r.k in ('int','float','double','ptr','struct','array','vector','x86_fp80','half'):
            r.size=SizeOf(s.dl,t); r.store=StoreSize(s.dl,t)
        return r
    def operand(s,v):
        """('l',key) local; ('c',ty,kind,payload) constant"""
        k=VK.get(ValKind(v),'?')
        if k in ('arg','instr'): return ('l',v)
        return s.const(v,k)
    def const(s,v,k=None):
        if k is None: k=VK.get(ValKind(v),'?')
        t=s.ty(TypeOf(v))
        if k=='cint':
            if t.w<=64: return ('c',t,'int',ZExt(v))
            raise NotImplementedError('wide int')
        if k=='cfp':
            l=c_int(); return ('c',t,'fp',RealD(v,byref(l)))
        if k=='null': return ('c',t,'null',None)
        if k in ('undef','poison'): return ('c',t,'undef',None)
        if k=='zeroinit': return ('c',t,'zero',None)
        if k in ('gvar','func','alias'): return ('c',t,'sym',_name(v))
        if k in ('cdarray','cdvector'):
            if IsStr(v):
                n=c_size_t(); p=AsStr(v,byref(n)); return ('c',t,'bytes',ctypes.string_at(p,n.value))
            return ('c',t,'agg',[s.const(AggElem(v,i)) for i in range(t.n)])
        if k in ('carray','cstruct','cvector'):
            n=len(t.els) if t.k=='struct' else t.n
            return ('c',t,'agg',[s.const(AggElem(v,i)) for i in range(n)])
        if k=='cexpr':
            op=OPC[ConstOpc(v)]; ops=[s.operand(GetOp(v,i)) for i in range(NumOps(v))]
            ex={}
            if op=='getelementptr': ex['src']=s.ty(GEPTy(v))
            if op=='icmp': ex['pred']=ICMP[ICmpPred(v)]
            return ('c',t,'expr',(op,ops,ex))
        if k=='mdval': return ('c',t,'md',None)
        if k=='asm': return ('c',t,'asm',None)
        return ('c',t,'?',k)
    def inst(s,v,bbidx):
        I=Inst(); I.ref=v; I.id=v; I.op=OPC.get(Opcode(v),'?%d'%Opcode(v)); I.ty=s.ty(TypeOf(v)); I.line=0; I.extra={}
        I.line=DbgLine(v)
        op=I.op; ex=I.extra
        if op=='br':
            if IsCond(v):
                I.ops=[s.operand(GetOp(v,0))]; ex['succ']=[bbidx[GetSucc(v,0)],bbidx[GetSucc(v,1)]]
            else: I.ops=[]; ex['succ']=[bbidx[GetSucc(v,0)]]
        elif op=='switch':
            n=NumSucc(v); I.ops=[s.operand(GetOp(v,0))]
            ex['succ']=[bbidx[GetSucc(v,i)] for i in range(n)]
            ex['cases']=[s.operand(GetOp(v,2*i)) for i in range(1,n)]
        elif op in('call','invoke'):
            I.ops=[s.operand(GetOp(v,i)) for i in range(NumArgs(v))]
            ex['callee']=s.operand(CalledVal(v)) 
            if op=='invoke': ex['succ']=[bbidx[NormalDest(v)],bbidx[UnwindDest(v)]]
        elif op=='phi':
            I.ops=[]; ex['inc']={bbidx[IncBB(v,i)]:s.operand(IncVal(v,i)) for i in range(NumInc(v))}
        else:
            I.ops=[s.operand(GetOp(v,i)) for i in range(NumOps(v))]
            if op=='icmp': ex['pred']=ICMP[ICmpPred(v)]
            elif op=='fcmp': ex['pred']=FCMP[FCmpPred(v)]
            elif op=='alloca': ex['aty']=s.ty(AllocTy(v))
            elif op=='getelementptr': ex['src']=s.ty(GEPTy(v))
            elif op in('extractvalue','insertvalue'):
                p=Idx(v); ex['idx']=[p[i] for i in range(NumIdx(v))]
            elif op=='landingpad':
                ex['clauses']=[s.const(GetClause(v,i)) for i in range(NumClauses(v))]; ex['cleanup']=bool(IsCleanup(v)); I.ops=[]
            elif op=='atomicrmw': ex['rmw']=AtomBin(v)
            if op in('load','store'): pass
        I_tys=None
        return I
    def opty(s,o,f=None):
        return o[1] if o[0]=='c' else s.ty(TypeOf(o[1]))
