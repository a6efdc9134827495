"""Fallback for obligations about floating-point arithmetic: the same formula over the mathematical reals (rounding, NaN and
infinities abstracted away), libm functions uninterpreted. Used only to accept an obligation, and reported as such."""
import z3
from sym import fconc, FPBITS
from fractions import Fraction
class No(Exception): pass
K=z3
class Tr:
    def __init__(s): s.c={}; s.ax=[]; s.keep=[]; s.side=[]; s.funs={}
    def t(s,e):
        r=s.c.get(e.get_id())
        if r is None:
            r=s.c[e.get_id()]=s._t(e); s.keep.append(e)
        return r
    def isfp(s,e): return isinstance(e,z3.FPRef)
    def fun(s,name,n):
        k=(name,n)
        if k not in s.funs: s.funs[k]=z3.Function('R_'+name,*([z3.RealSort()]*(n+1)))
        return s.funs[k]
    def _t(s,e):
        d=e.decl().kind() if z3.is_app(e) else None
        if isinstance(e,z3.FPRef):
            f=fconc(e)
            if f is not None:
                if f!=f or f in(float('inf'),float('-inf')): raise No()
                return z3.RealVal(str(Fraction(f)))
            ch=e.children()
            if d==z3.Z3_OP_FPA_ADD: return s.t(ch[1])+s.t(ch[2])
            if d==z3.Z3_OP_FPA_SUB: return s.t(ch[1])-s.t(ch[2])
            if d==z3.Z3_OP_FPA_MUL: return s.t(ch[1])*s.t(ch[2])
            if d==z3.Z3_OP_FPA_DIV: return s.t(ch[1])/s.t(ch[2])
            if d==z3.Z3_OP_FPA_NEG: return -s.t(ch[0])
            if d==z3.Z3_OP_FPA_ABS: x=s.t(ch[0]); return z3.If(x<0,-x,x)
            if d==z3.Z3_OP_FPA_SQRT: return s.fun('sqrt',1)(s.t(ch[1]))
            if d==z3.Z3_OP_ITE: return z3.If(s.t(ch[0]),s.t(ch[1]),s.t(ch[2]))
            if d==z3.Z3_OP_FPA_ROUND_TO_INTEGRAL: 
                rm=str(ch[0]); x=s.t(ch[1])
                if 'Negative' in rm or 'RTN' in rm: return z3.ToReal(z3.ToInt(x))
                if 'Positive' in rm or 'RTP' in rm: return -z3.ToReal(z3.ToInt(-x))
                if 'Zero' in rm or 'RTZ' in rm: return z3.If(x>=0,z3.ToReal(z3.ToInt(x)),-z3.ToReal(z3.ToInt(-x)))
                if 'Away' in rm or 'RNA' in rm: return z3.If(x>=0,z3.ToReal(z3.ToInt(x+0.5)),-z3.ToReal(z3.ToInt(-x+0.5)))
                return s.fun('rint',1)(x)
            if d==z3.Z3_OP_FPA_TO_FP:
                if len(ch)==2:
                    x=ch[1]
                    if isinstance(x,z3.FPRef): return s.t(x)
                    if isinstance(x,z3.BitVecRef): return s.int_of(x,True)
                if len(ch)==1 and isinstance(ch[0],z3.BitVecRef):
                    return z3.Function('R_bits%d'%ch[0].size(),ch[0].sort(),z3.RealSort())(ch[0])
            if d==z3.Z3_OP_FPA_TO_FP_UNSIGNED: return s.int_of(ch[1],False)
            if d==z3.Z3_OP_UNINTERPRETED: 
                nm=e.decl().name()
                if nm.endswith('f') and nm[:-1] in('log','exp','sin','cos','tan','asin','acos','atan','pow','atan2','fmod'): nm=nm[:-1]
                if not ch: return z3.Real('R_'+nm)
                if any(not isinstance(x,z3.FPRef) for x in ch): nm+=':'+','.join(x.sexpr() for x in ch if not isinstance(x,z3.FPRef)); ch=[x for x in ch if isinstance(x,z3.FPRef)]
                return s.fun(nm,len(ch))(*[s.t(x) for x in ch]) if ch else z3.Real('R_'+nm)
            if d==z3.Z3_OP_SELECT: raise No()
            raise No()
        if isinstance(e,z3.BoolRef):
            ch=e.children()
            if d in(z3.Z3_OP_FPA_EQ,): return s.t(ch[0])==s.t(ch[1])
            if d==z3.Z3_OP_FPA_LT: return s.t(ch[0])<s.t(ch[1])
            if d==z3.Z3_OP_FPA_LE: return s.t(ch[0])<=s.t(ch[1])
            if d==z3.Z3_OP_FPA_GT: return s.t(ch[0])>s.t(ch[1])
            if d==z3.Z3_OP_FPA_GE: return s.t(ch[0])>=s.t(ch[1])
            if d in(z3.Z3_OP_FPA_IS_NAN,z3.Z3_OP_FPA_IS_INF,z3.Z3_OP_FPA_IS_SUBNORMAL): return z3.BoolVal(False)
            if d==z3.Z3_OP_FPA_IS_NEGATIVE: return s.t(ch[0])<0
            if d==z3.Z3_OP_FPA_IS_POSITIVE: return s.t(ch[0])>=0
            if d==z3.Z3_OP_FPA_IS_ZERO: return s.t(ch[0])==0
            if d==z3.Z3_OP_EQ and s.isfp(ch[0]): return s.t(ch[0])==s.t(ch[1])
            if d==z3.Z3_OP_DISTINCT and s.isfp(ch[0]): return s.t(ch[0])!=s.t(ch[1])
        if isinstance(e,z3.BitVecRef) and z3.is_app(e):
            if d==z3.Z3_OP_FPA_TO_IEEE_BV:
                x=s.t(e.arg(0)); return z3.Function('BITS%d'%e.size(),z3.RealSort(),e.sort())(x)
            if d in(z3.Z3_OP_FPA_TO_SBV,z3.Z3_OP_FPA_TO_UBV):
                x=s.t(e.arg(1)); return z3.Int2BV(z3.If(x>=0,z3.ToInt(x),-z3.ToInt(-x)),e.size())
        if not z3.is_app(e): raise No()
        ch=e.children()
        if not ch: return e
        n=[s.t(c) for c in ch]
        if all(a.eq(b) for a,b in zip(ch,n)): return e
        return e.decl()(*n)
    def int_of(s,x,sgn):
        """integer value of a bit-vector: exact through literals, extensions and non-overflowing + - *; otherwise an
        uninterpreted integer with its range"""
        r,lo,hi=s.iv(x)
        w=x.size()
        if sgn and hi>=1<<(w-1):
            if z3.is_app(x) and x.decl().kind()==z3.Z3_OP_SIGN_EXT: return s.sx(x.arg(0))
            if lo<1<<(w-1): return s.sx(x)
            return r-(1<<w)
        return r
    def sx(s,x):
        x=s.t(x); w=x.size()
        if z3.is_bv_value(x): return z3.RealVal(x.as_signed_long())
        r=z3.Function('R_sint%d'%w,x.sort(),z3.RealSort())(x); s.side+=[r>=-(1<<(w-1)),r<=(1<<(w-1))-1]
        return r
    def iv(s,x):
        """-> (real term of the unsigned value, lo, hi)"""
        w=x.size()
        if z3.is_bv_value(x): v=x.as_long(); return z3.RealVal(v),v,v
        if z3.is_app(x):
            d=x.decl().kind(); ch=x.children()
            if d==z3.Z3_OP_ZERO_EXT: return s.iv(ch[0])
            if d==z3.Z3_OP_CONCAT and z3.is_bv_value(ch[0]) and ch[0].as_long()==0:
                return s.iv(ch[1] if len(ch)==2 else z3.Concat(*ch[1:]))
            if d in(z3.Z3_OP_BADD,z3.Z3_OP_BMUL):
                p=[s.iv(c) for c in ch]; r,lo,hi=p[0]
                for q,l,h in p[1:]:
                    if d==z3.Z3_OP_BADD: r,lo,hi=r+q,lo+l,hi+h
                    else: r,lo,hi=r*q,lo*l,hi*h
                if hi<1<<w: return r,lo,hi
            if d==z3.Z3_OP_ITE:
                (a,al,ah),(b,bl,bh)=s.iv(ch[1]),s.iv(ch[2]); return z3.If(s.t(ch[0]),a,b),min(al,bl),max(ah,bh)
        y=s.t(x); r=z3.Function('R_uint%d'%w,y.sort(),z3.RealSort())(y); s.side+=[r>=0,r<=(1<<w)-1]
        return r,0,(1<<w)-1
def prove(pc,goal,ms=10000):
    """True when pc => goal holds over the reals"""
    try:
        T=Tr(); g=T.t(goal); ps=[]
        for p in pc:
            try: ps.append(T.t(p))
            except No: pass     # a dropped hypothesis only weakens what we may use
    except No: return False
    except z3.Z3Exception: return False
    # polynomial normal form first
    g1=z3.simplify(g,som=True,arith_lhs=True,sort_sums=True,elim_and=True)
    if z3.is_true(g1): return True
    S=z3.Solver(); S.set('timeout',ms); S.add(*ps); S.add(*T.side); S.add(z3.Not(g1))
    return S.check()==z3.unsat
def has_fp(e,seen=None):
    seen=set(); st=[e]
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if isinstance(x,z3.FPRef): return True
        st.extend(x.children())
    return False
