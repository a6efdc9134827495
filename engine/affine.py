"""Affine arithmetic: a term over bounded integers is a linear form with exact rational coefficients plus a bound on the
rounding error made on the way (standard model of IEEE rounding, subnormals included).  Decides, rounding included, that a
floating-point computation is a given linear function of its integer inputs up to a stated absolute error."""
import z3
from fractions import Fraction as F
from sym import fconc
class No(Exception): pass
class A:
    """sum c[x]*x + k, |error|<=e"""
    def __init__(s,c=None,k=F(0),e=F(0)): s.c=c or {}; s.k=F(k); s.e=F(e)
class Aff:
    def __init__(s,ranges): s.r={x.get_id():(lo,hi) for x,lo,hi in ranges}; s.keep=[x for x,_,_ in ranges]; s.memo={}
    def rng(s,a):
        lo=hi=a.k
        for x,c in a.c.items(): l,h=s.r[x]; lo+=min(c*l,c*h); hi+=max(c*l,c*h)
        return lo-a.e,hi+a.e
    def comb(s,a,b,f,g):
        c={x:f*v for x,v in a.c.items()}
        for x,v in b.c.items(): c[x]=c.get(x,0)+g*v
        return A({x:v for x,v in c.items() if v},f*a.k+g*b.k,abs(f)*a.e+abs(g)*b.e)
    def rnd(s,a,sort):
        lo,hi=s.rng(a); m=max(abs(lo),abs(hi)); p=24 if sort==z3.Float32() else 53
        return A(a.c,a.k,a.e+m*F(1,2**p)+F(1,2**(149 if p==24 else 1074)))
    def integer(s,a): return a.e==0 and all(v.denominator==1 for v in list(a.c.values())+[a.k])
    def t(s,e):
        i=e.get_id()
        if i not in s.memo: s.memo[i]=s._t(e); s.keep.append(e)
        return s.memo[i]
    def mul(s,a,b):
        if a.c and b.c: raise No('not linear')
        if a.c: a,b=b,a
        if a.e: raise No('inexact factor')
        return A({x:v*a.k for x,v in b.c.items()},a.k*b.k,abs(a.k)*b.e)
    def bvfit(s,a,w,signed=True):
        """the value of a w-bit operation, when it cannot wrap (as a signed number)"""
        lo,hi=s.rng(a)
        if not s.integer(a) or lo<-(1<<w-1) or hi>=1<<w-1: raise No('may wrap')
        return a
    def _t(s,e):
        if e.get_id() in s.r: return A({e.get_id():F(1)})
        d=e.decl().kind(); ch=e.children()
        if isinstance(e,z3.BitVecRef):
            w=e.size()
            if z3.is_bv_value(e): return A(k=e.as_signed_long())
            if d==z3.Z3_OP_ZERO_EXT:
                a=s.t(ch[0]); lo,hi=s.rng(a)
                if lo<0: raise No('negative zero extension')
                return a
            if d==z3.Z3_OP_SIGN_EXT: return s.t(ch[0])
            if d==z3.Z3_OP_CONCAT and z3.is_bv_value(ch[0]) and ch[0].as_long()==0 and len(ch)==2:
                a=s.t(ch[1])
                if s.rng(a)[0]<0: raise No('negative zero extension')
                return a
            if d==z3.Z3_OP_CONCAT:
                # sign extension written as repeated sign bits
                x=ch[-1]; top=lambda t: z3.is_app(t) and t.decl().kind()==z3.Z3_OP_EXTRACT and t.params()==[x.size()-1,x.size()-1] and t.arg(0).eq(x)
                if all(top(t) for t in ch[:-1]):
                    a=s.t(x); lo,hi=s.rng(a)
                    if hi<1<<x.size()-1 and lo>=-(1<<x.size()-1): return a
                raise No('concatenation')
            if d==z3.Z3_OP_BADD:
                a=s.t(ch[0])
                for c in ch[1:]: a=s.comb(a,s.t(c),F(1),F(1))
                return s.bvfit(a,w)
            if d==z3.Z3_OP_BSUB: return s.bvfit(s.comb(s.t(ch[0]),s.t(ch[1]),F(1),F(-1)),w)
            if d==z3.Z3_OP_BNEG: return s.bvfit(s.comb(A(),s.t(ch[0]),F(1),F(-1)),w)
            if d==z3.Z3_OP_BMUL:
                a=s.t(ch[0])
                for c in ch[1:]: a=s.mul(a,s.t(c))
                return s.bvfit(a,w)
            raise No(str(e.decl()))
        if isinstance(e,z3.FPRef):
            f=fconc(e)
            if f is not None:
                if f!=f or abs(f)==float('inf'): raise No('not finite')
                return A(k=F(f))
            so=e.sort()
            if d==z3.Z3_OP_FPA_ADD: return s.rnd(s.comb(s.t(ch[1]),s.t(ch[2]),F(1),F(1)),so)
            if d==z3.Z3_OP_FPA_SUB: return s.rnd(s.comb(s.t(ch[1]),s.t(ch[2]),F(1),F(-1)),so)
            if d==z3.Z3_OP_FPA_MUL: return s.rnd(s.mul(s.t(ch[1]),s.t(ch[2])),so)
            if d==z3.Z3_OP_FPA_DIV:
                a,b=s.t(ch[1]),s.t(ch[2])
                if b.c or b.e or not b.k: raise No('division by a variable')
                return s.rnd(s.mul(A(k=1/b.k),a),so)
            if d==z3.Z3_OP_FPA_NEG: return s.comb(A(),s.t(ch[0]),F(1),F(-1))
            if d==z3.Z3_OP_FPA_TO_FP and len(ch)==2:
                a=s.t(ch[1]); lo,hi=s.rng(a); m=max(abs(lo),abs(hi))
                if s.integer(a) and m<=(1<<24 if so==z3.Float32() else 1<<53): return a
                return a if so==z3.Float64() and isinstance(ch[1],z3.FPRef) else s.rnd(a,so)
            if d==z3.Z3_OP_FPA_TO_FP_UNSIGNED:
                a=s.t(ch[1])
                if s.rng(a)[0]<0: raise No('negative')
                return a if s.integer(a) and s.rng(a)[1]<=1<<24 else s.rnd(a,so)
        raise No(str(e.decl()))
def linear(val,xs,weights,k,tol):
    """val = sum weights*xs + k up to tol -> (decided, text). xs: [(term,lo,hi)]"""
    from sym import fpz
    import sym
    a=Aff(xs); r=a.t(z3.simplify(val) if False else val) if not isinstance(val,(float,int)) else A(k=F(val)); err=r.e+abs(r.k-k)
    for (x,lo,hi),w in zip(xs,weights): err+=abs(r.c.get(x.get_id(),F(0))-w)*max(abs(lo),abs(hi))
    return err<=tol,'differs by at most %.3g (allowed %.3g)'%(float(err),float(tol))
