"""Verification-condition generator: symbolic execution of clang-emitted LLVM IR with function contracts,
path merging at post-dominators, full unrolling of constant-trip loops and inductive summaries for the others."""
import sys, struct, math, time
import z3
from llvmir import Module, Func
sys.setrecursionlimit(200000)
import threading; threading.stack_size(512*1024*1024)

F64=z3.Float64(); F32=z3.Float32(); RNE=z3.RNE()
TRUE=z3.BoolVal(True); FALSE=z3.BoolVal(False)

class Unsupported(Exception): pass
class PathLimit(Unsupported): pass

# ---------------------------------------------------------------- values
class Obj:
    _n=0
    __slots__=('id','name','size','kind','const','meta')
    def __init__(s,name,size,kind='heap',const=False):
        Obj._n+=1; s.id=Obj._n; s.name=name; s.size=size; s.kind=kind; s.const=const; s.meta={}
    def __repr__(s): return '<%s#%d>'%(s.name,s.id)
class Ptr:
    __slots__=('obj','off')
    def __init__(s,obj,off=0): s.obj=obj; s.off=off
    def __repr__(s): return 'Ptr(%r,%s)'%(s.obj,s.off)
NULL=Ptr(None,0)
class FnPtr:
    __slots__=('name',)
    def __init__(s,n): s.name=n
    def __repr__(s): return 'Fn(%s)'%s.name
class PtrIte:
    __slots__=('alts',)
    def __init__(s,alts): s.alts=alts
    def __repr__(s): return 'PtrIte(%r)'%(s.alts,)
class Undef:
    def __repr__(s): return 'undef'
UNDEF=Undef()
def isptr(v): return isinstance(v,(Ptr,PtrIte,FnPtr))
def is_c(v): return isinstance(v,(int,float,bool))
MASK={w:(1<<w)-1 for w in list(range(1,130))}
def bv(v,w):
    if isinstance(v,z3.BitVecRef): return v
    if isinstance(v,bool): return z3.BitVecVal(int(v),w)
    if isinstance(v,int): return z3.BitVecVal(v,w)
    if isinstance(v,z3.BoolRef): return z3.If(v,z3.BitVecVal(1,w),z3.BitVecVal(0,w))
    if v is UNDEF: return fresh('undef',w)
    if isinstance(v,(z3.FPRef,float)): return fp_bits(v,w//8)
    raise Unsupported('bv of %r'%(v,))
def norm(e):
    """z3 BV -> python int when it is a literal"""
    if isinstance(e,z3.BitVecNumRef): return e.as_long()
    return e
def simp(e):
    if isinstance(e,z3.ExprRef):
        e=z3.simplify(e)
        if isinstance(e,z3.BitVecNumRef): return e.as_long()
        if isinstance(e,z3.BoolRef):
            if z3.is_true(e): return True
            if z3.is_false(e): return False
    return e
def zbool(v):
    if isinstance(v,z3.BoolRef): return v
    if isinstance(v,(bool,int)): return z3.BoolVal(bool(v))
    if isinstance(v,z3.BitVecRef): return v==z3.BitVecVal(1,1) if v.size()==1 else v!=0
    if v is UNDEF: return z3.Bool(fname('undefb'))
    raise Unsupported('bool of %r'%(v,))
def signed(v,w): return v-(1<<w) if v>>(w-1)&1 else v
_fc=[0]
def fname(p): _fc[0]+=1; return '%s!%d'%(p,_fc[0])
def fresh(p,w): return z3.BitVec(fname(p),w)
def And(*a):
    a=[x for x in a if x is not True and not (isinstance(x,z3.BoolRef) and z3.is_true(x))]
    if any(x is False or (isinstance(x,z3.BoolRef) and z3.is_false(x)) for x in a): return False
    if not a: return True
    if len(a)==1: return a[0]
    return z3.And(*a)
def Not(x):
    if isinstance(x,(bool,int)): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Or(*a):
    a=[x for x in a if x is not False and not (isinstance(x,z3.BoolRef) and z3.is_false(x))]
    if any(x is True or (isinstance(x,z3.BoolRef) and z3.is_true(x)) for x in a): return True
    if not a: return False
    if len(a)==1: return a[0]
    return z3.Or(*a)
# ---------------------------------------------------------------- floating point
FPBITS={}  # fp ast id -> (fp, bv) so that moves do not go through fp.to_ieee_bv
def fsort(n): return F32 if n==4 else F64
def f32r(x):
    try: return struct.unpack('<f',struct.pack('<f',x))[0]
    except OverflowError: return math.copysign(math.inf,x)
def bits2f(b,n): return struct.unpack('<f' if n==4 else '<d',b.to_bytes(n,'little'))[0]
def f2bits(f,n): return int.from_bytes(struct.pack('<f' if n==4 else '<d',f),'little')
def fpz(v,n):
    if isinstance(v,z3.FPRef): return v
    if isinstance(v,(int,float)):
        return z3.FPVal(v,fsort(n)) if not math.isnan(v) else z3.fpNaN(fsort(n))
    if isinstance(v,z3.BitVecRef): return bits_fp(v,n)
    if v is UNDEF: return z3.FP(fname('undeff'),fsort(n))
    raise Unsupported('fp of %r'%(v,))
def bits_fp(b,n):
    """bv bits -> fp value"""
    if isinstance(b,int): return bits2f(b,n)
    f=z3.fpBVToFP(b,fsort(n)); FPBITS[f.get_id()]=(f,b); return f
def fp_bits(v,n):
    if isinstance(v,float): return f2bits(v,n)
    r=FPBITS.get(v.get_id())
    if r is not None: return r[1]
    c=fconc(v)
    if c is not None: return f2bits(c,n)
    return z3.fpToIEEEBV(v)
def fconc(v):
    if isinstance(v,float): return v
    if isinstance(v,z3.FPNumRef):
        if v.isNaN(): return math.nan
        if v.isInf(): return -math.inf if v.isNegative() else math.inf
        if v.isZero(): return -0.0 if v.isNegative() else 0.0
        s=v.size() if False else None
        sb=v.sbits(); eb=v.ebits()
        sig=v.significand_as_long(); ex=v.exponent_as_long(biased=True); 
        bias=(1<<(eb-1))-1
        m=sb-1
        x=(sig*2.0**-m)
        r=math.ldexp(1+x,ex-bias) if ex else math.ldexp(x,1-bias)
        return -r if v.isNegative() else r
    return None
COMM={'fadd','fmul'}
def fbin(op,a,b,n):
    if isinstance(a,float) and isinstance(b,float):
        try:
            r={'fadd':lambda:a+b,'fsub':lambda:a-b,'fmul':lambda:a*b,'fdiv':lambda:(a/b) if b!=0 else (math.nan if a==0 or math.isnan(a) else math.copysign(math.inf,a)*math.copysign(1,b)),'frem':lambda:math.fmod(a,b)}[op]()
        except (OverflowError,ValueError): r=math.nan if op=='frem' else math.inf
        return f32r(r) if n==4 and not math.isnan(r) else r
    A=fpz(a,n); B=fpz(b,n)
    if op in COMM and A.get_id()>B.get_id(): A,B=B,A
    if op=='fadd': return z3.fpAdd(RNE,A,B)
    if op=='fsub': return z3.fpSub(RNE,A,B)
    if op=='fmul': return z3.fpMul(RNE,A,B)
    if op=='fdiv': return z3.fpDiv(RNE,A,B)
    return UFun('fmod',2,n)(A,B)
_uf={}
def UFun(name,k,n=8):
    s=fsort(n); key=(name,k,n)
    if key not in _uf: _uf[key]=z3.Function(name+('' if n==8 else 'f'),*([s]*(k+1)))
    return _uf[key]
MATH1={'log','exp','sin','cos','tan','asin','acos','atan','sqrt','log10','fabs','floor','ceil','round','cbrt','trunc','rint','exp2','log2','sinh','cosh','tanh','nearbyint'}
MATH2={'pow','atan2','fmod','hypot'}
def fmath(name,args,n):
    if all(isinstance(a,float) for a in args):
        try:
            if name=='log': r=math.log(args[0]) if args[0]>0 else (-math.inf if args[0]==0 else math.nan)
            elif name=='fabs': r=abs(args[0])
            elif name=='round': r=math.copysign(math.floor(abs(args[0])+0.5),args[0])
            elif name in('floor','ceil','trunc'): r=float(getattr(math,name)(args[0])) if math.isfinite(args[0]) else args[0]
            elif name in('rint','nearbyint'): r=float(round(args[0]))
            else: r=getattr(math,name)(*args)
        except (ValueError,OverflowError): r=math.nan
        return f32r(r) if n==4 and not math.isnan(r) else float(r)
    a=[fpz(x,n) for x in args]
    if name=='fabs': return z3.fpAbs(a[0])
    if name=='sqrt': return z3.fpSqrt(RNE,a[0])
    if name=='round': return z3.fpRoundToIntegral(z3.RNA(),a[0])
    if name=='floor': return z3.fpRoundToIntegral(z3.RTN(),a[0])
    if name=='ceil': return z3.fpRoundToIntegral(z3.RTP(),a[0])
    if name=='trunc': return z3.fpRoundToIntegral(z3.RTZ(),a[0])
    if name in('rint','nearbyint'): return z3.fpRoundToIntegral(RNE,a[0])
    return UFun(name,len(a),n)(*a)
def fcmp(pred,a,b,n):
    if isinstance(a,float) and isinstance(b,float):
        u=math.isnan(a) or math.isnan(b)
        o={'eq':a==b,'gt':a>b,'ge':a>=b,'lt':a<b,'le':a<=b,'ne':a!=b}
        if pred=='ord': return not u
        if pred=='uno': return u
        if pred in('true','false'): return pred=='true'
        return (u or o[pred[1:]]) if pred[0]=='u' else (not u and o[pred[1:]])
    A=fpz(a,n); B=fpz(b,n)
    c={'eq':z3.fpEQ,'gt':z3.fpGT,'ge':z3.fpGEQ,'lt':z3.fpLT,'le':z3.fpLEQ}
    if pred=='true': return True
    if pred=='false': return False
    isn=z3.Or(z3.fpIsNaN(A),z3.fpIsNaN(B))
    if pred=='ord': return z3.Not(isn)
    if pred=='uno': return isn
    k=pred[1:]
    if k=='ne': 
        e=z3.fpEQ(A,B)
        return z3.Not(e) if pred[0]=='u' else z3.And(z3.Not(isn),z3.Not(e))
    if pred[0]=='o': return c[k](A,B)
    # unordered-or-k  ==  not (ordered negation)
    inv={'gt':z3.fpLEQ,'ge':z3.fpLT,'lt':z3.fpGEQ,'le':z3.fpGT}
    if k in inv: return z3.Not(inv[k](A,B))
    return z3.Or(isn,c[k](A,B))
# ---------------------------------------------------------------- ite / equality of values
def size_of_val(v): return None
def vite(c,a,b,n=None):
    """if c then a else b ; n = size in bytes (for fp/ptr disambiguation)"""
    if a is b: return a
    if isinstance(c,(bool,int)): return a if c else b
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is UNDEF or b is UNDEF:
        o=b if a is UNDEF else a
        if isptr(o) or isinstance(o,(list,tuple)) or o is UNDEF: return o
        w=1 if isinstance(o,(bool,z3.BoolRef)) and n is None else o.size() if isinstance(o,z3.BitVecRef) else 8*n if n else None
        if isinstance(o,(float,z3.FPRef)):
            k=n or (4 if isinstance(o,z3.FPRef) and o.sort()==F32 else 8); f=z3.FP(fname('undeff'),fsort(k))
        elif isinstance(o,z3.BoolRef) or isinstance(o,bool): f=z3.Bool(fname('undefb'))
        elif w is None: return o
        else: f=z3.BitVec(fname('undef'),w)
        if a is UNDEF: a=f
        else: b=f
    if isptr(a) or isptr(b):
        if not isptr(a): a=as_ptr(a)
        if not isptr(b): b=as_ptr(b)
        if isinstance(a,FnPtr) and isinstance(b,FnPtr) and a.name==b.name: return a
        if isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj is b.obj:
            o=vite(c,a.off,b.off,8); return Ptr(a.obj,o)
        alts=[]
        for cc,p in ((c,a),(Not(c),b)):
            if isinstance(p,PtrIte): alts+= [(And(cc,c2),q) for c2,q in p.alts]
            else: alts.append((cc,p))
        out=[]
        for cc,p in alts:
            for i,(c0,q) in enumerate(out):
                if isinstance(p,Ptr) and isinstance(q,Ptr) and p.obj is q.obj and same(p.off,q.off): out[i]=(Or(c0,cc),q); break
            else: out.append((cc,p))
        if len(out)==1: return out[0][1]
        return PtrIte(out)
    if isinstance(a,(list,tuple)):
        return [vite(c,x,y) for x,y in zip(a,b)]
    if isinstance(a,float) or isinstance(b,float) or isinstance(a,z3.FPRef) or isinstance(b,z3.FPRef):
        if isinstance(a,float) and isinstance(b,float):
            if (a==b and math.copysign(1,a)==math.copysign(1,b)) or (math.isnan(a) and math.isnan(b)): return a
        if n is None:
            for x in (a,b):
                if isinstance(x,z3.FPRef): n=4 if x.sort()==F32 else 8
            if n is None: n=8
        A=fpz(a,n); B=fpz(b,n)
        if A.eq(B): return a
        r=z3.If(c,A,B)
        pa,pb=FPBITS.get(A.get_id()),FPBITS.get(B.get_id())
        return r
    if isinstance(a,(bool,z3.BoolRef)) or isinstance(b,(bool,z3.BoolRef)):
        if not(isinstance(a,z3.BitVecRef) or isinstance(b,z3.BitVecRef)):
            if isinstance(a,(bool,int)) and isinstance(b,(bool,int)):
                if bool(a)==bool(b): return bool(a)
                return c if a else Not(c)
            A=zbool(a); B=zbool(b)
            return A if A.eq(B) else z3.If(c,A,B)
    if isinstance(a,int) and isinstance(b,int):
        if a==b: return a
        w=(n or 8)*8
        return z3.If(c,z3.BitVecVal(a,w),z3.BitVecVal(b,w))
    w=a.size() if isinstance(a,z3.BitVecRef) else b.size() if isinstance(b,z3.BitVecRef) else (n or 8)*8
    A=bv(a,w); B=bv(b,w)
    if A.eq(B): return a
    return z3.If(c,A,B)
def same(a,b):
    if a is b: return True
    if isinstance(a,(int,float)) and isinstance(b,(int,float)): return a==b and type(a)==type(b)
    if isinstance(a,z3.ExprRef) and isinstance(b,z3.ExprRef): return a.eq(b)
    if isinstance(a,Ptr) and isinstance(b,Ptr): return a.obj is b.obj and same(a.off,b.off)
    if isinstance(a,FnPtr) and isinstance(b,FnPtr): return a.name==b.name
    if isinstance(a,(list,tuple)) and isinstance(b,(list,tuple)): return len(a)==len(b) and all(same(x,y) for x,y in zip(a,b))
    if isinstance(a,PtrIte) and isinstance(b,PtrIte): return len(a.alts)==len(b.alts) and all(same(x[1],y[1]) and same(x[0],y[0]) for x,y in zip(a.alts,b.alts))
    return False
def as_ptr(v):
    if isptr(v): return v
    if isinstance(v,int): return NULL if v==0 else Ptr(None,v)
    if isinstance(v,z3.BitVecRef): return Ptr(None,v)
    if v is UNDEF: return Ptr(None,fresh('undefp',64))
    raise Unsupported('as_ptr %r'%(v,))
def off_add(a,b):
    if isinstance(a,int) and isinstance(b,int): return (a+b)
    r=bv(a,64)+bv(b,64)
    return norm(z3.simplify(r))
def soff(a): 
    """offset as signed python int if concrete"""
    return a
# ---------------------------------------------------------------- memory contents
class Range:
    """bytes [lo,lo+n) given by fn(idx BV64/int, nbytes)->value ; elem: access granularity known to fn"""
    __slots__=('lo','n','fn','desc')
    def __init__(s,lo,n,fn,desc=''): s.lo=lo; s.n=n; s.fn=fn; s.desc=desc
class MapR:
    """writes of a summarised loop: for j in [0,cnt): each (guard(j), off(j), nbytes, val(j)) in order.
    k: the z3 symbol to substitute; stride: signed constant or term; lo: smallest offset of iteration 0"""
    __slots__=('k','cnt','stride','writes','lo','ext')
    def __init__(s,k,cnt,stride,writes,lo,ext): s.k=k; s.cnt=cnt; s.stride=stride; s.writes=writes; s.lo=lo; s.ext=ext
class SymW:
    """one write at symbolic offset"""
    __slots__=('off','n','val')
    def __init__(s,off,n,val): s.off=off; s.n=n; s.val=val
class Cells:
    __slots__=('d',)
    def __init__(s,d=None): s.d={} if d is None else d
class Content:
    __slots__=('base','layers','tok')
    def __init__(s,base=None,layers=None,tok=None):
        s.base=base; s.layers=layers if layers is not None else [Cells()]; s.tok=tok
    def copy(s,tok):
        return Content(s.base,[Cells(dict(l.d)) if isinstance(l,Cells) and i==len(s.layers)-1 else l for i,l in enumerate(s.layers)],tok)
def bytes_of(val,n):
    """little endian list of byte values (int or BV8)"""
    if isinstance(val,float): val=f2bits(val,n)
    if isinstance(val,z3.FPRef): val=fp_bits(val,n)
    if isinstance(val,bool): val=int(val)
    if isinstance(val,z3.BoolRef): val=bv(val,8*n)
    if isinstance(val,int): return list((val&MASK[8*n]).to_bytes(n,'little'))
    if isinstance(val,z3.BitVecRef):
        if n==1: return [val]
        return [z3.Extract(8*i+7,8*i,val) for i in range(n)]
    if val is UNDEF: return [UNDEF]*n
    raise Unsupported('bytes of pointer')
def from_bytes(bs):
    if all(isinstance(b,int) for b in bs): return int.from_bytes(bytes(bs),'little')
    if len(bs)==1: return bs[0]
    if all(b is UNDEF for b in bs): return UNDEF
    r=z3.Concat(*[bv(b,8) for b in reversed(bs)])
    return norm(z3.simplify(r))
class State:
    def __init__(s):
        s.mem={}; s.pc=(); s.ghost={}; s.freed=frozenset(); s.tok=object(); s.exc=()
    def fork(s):
        t=State.__new__(State); t.mem=dict(s.mem); t.pc=s.pc; t.ghost=dict(s.ghost); t.freed=s.freed; t.exc=s.exc
        t.tok=object(); s.tok=object(); return t
    def assume(s,c):
        if isinstance(c,(bool,int)):
            if not c: s.pc=s.pc+(FALSE,)
            return
        if z3.is_true(c): return
        if any(c.eq(x) for x in s.pc[-8:]): return
        s.pc=s.pc+(c,)
    def wr(s,obj):
        c=s.mem[obj.id]
        if c.tok is not s.tok:
            c=c.copy(s.tok); s.mem[obj.id]=c
        return c
class Outcome:
    __slots__=('kind','st','val')
    def __init__(s,kind,st,val=None): s.kind=kind; s.st=st; s.val=val
    def __repr__(s): return 'Outcome(%s,%r)'%(s.kind,s.val)
class ExcVal:
    __slots__=('ptr','tinfo')
    def __init__(s,ptr,tinfo): s.ptr=ptr; s.tinfo=tinfo
class Obligation:
    __slots__=('name','pc','goal','kind','where','status','solver','t','model','detail')
    def __init__(s,name,pc,goal,kind,where):
        s.name=name; s.pc=pc; s.goal=goal; s.kind=kind; s.where=where; s.status=None; s.solver=None; s.t=0; s.model=None; s.detail=''
