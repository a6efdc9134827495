"""Normal forms of floating-point terms over the reals (rounding abstracted away, constants compared to 1e-10 relative):
decides that two formulas are the same function of their atoms.  Also the standard model of rounding errors: `relerr`
bounds the relative error of multiplicative chains."""
import z3
from fractions import Fraction
from sym import fconc, FPBITS
class No(Exception): pass
TOL=Fraction(1,10**10)
def close(a,b): return a==b or abs(a-b)<=TOL*max(abs(a),abs(b))
class NF:
    def __init__(s): s.atoms=[]; s.memo={}; s.keep=[]
    def atom(s,name,args):
        for i,(n,a) in enumerate(s.atoms):
            if n==name and len(a)==len(args) and all(s.eq(x,y) if isinstance(x,dict) else x==y for x,y in zip(a,args)): return i
        s.atoms.append((name,args)); return len(s.atoms)-1
    def mono(s,i,e=1): return {((i,e),):Fraction(1)}
    def eq(s,a,b):
        sc=max([abs(v) for v in list(a.values())+list(b.values())] or [0])
        for k in set(a)|set(b):
            x,y=a.get(k,Fraction(0)),b.get(k,Fraction(0))
            if not close(x,y) and abs(x-y)>Fraction(1,10**13)*sc: return False
        return True
    def add(s,a,b,sg=1):
        r=dict(a)
        for k,v in b.items():
            r[k]=r.get(k,0)+sg*v
            if r[k]==0: del r[k]
        return r
    def mul(s,a,b):
        if len(a)*len(b)>4000: raise No()
        r={}
        for k,v in a.items():
            for l,w in b.items():
                d=dict(k)
                for i,e in l:
                    d[i]=d.get(i,0)+e
                    if not d[i]: del d[i]
                m=tuple(sorted(d.items())); r[m]=r.get(m,0)+v*w
                if r[m]==0: del r[m]
        # sqrt(x)^2 = x
        for m in list(r):
            for i,e in m:
                if e>=2 and s.atoms[i][0]=='sqrt':
                    c=r.pop(m); rest=tuple((j,f) for j,f in m if j!=i)+(((i,e-2),) if e>2 else ())
                    r=s.add(r,s.mul({tuple(sorted(rest)):c},s.atoms[i][1][0])); break
        return r
    def inv(s,b):
        if not b: raise No()
        if len(b)==1:
            (k,v),=b.items(); return {tuple((i,-e) for i,e in k):1/v}
        lead=max(b.items(),key=lambda x:(len(x[0]),x[0])); n={k:v/lead[1] for k,v in b.items()}
        return {((s.atom('inv',[n]),1),):1/lead[1]}
    def t(s,e):
        if isinstance(e,(float,int)): 
            if e!=e or e in(float('inf'),-float('inf')): raise No()
            return {():Fraction(e)} if e else {}
        r=s.memo.get(e.get_id())
        if r is None: r=s.memo[e.get_id()]=s._t(e); s.keep.append(e)
        return r
    def leaf(s,key): return s.mono(s.atom(key,[]))
    def _t(s,e):
        f=fconc(e) if isinstance(e,z3.FPRef) else None
        if f is not None: return s.t(f)
        if not z3.is_app(e): raise No()
        d=e.decl().kind(); ch=e.children()
        if d==z3.Z3_OP_FPA_ADD: return s.add(s.t(ch[1]),s.t(ch[2]))
        if d==z3.Z3_OP_FPA_SUB: return s.add(s.t(ch[1]),s.t(ch[2]),-1)
        if d==z3.Z3_OP_FPA_MUL: return s.mul(s.t(ch[1]),s.t(ch[2]))
        if d==z3.Z3_OP_FPA_DIV: return s.mul(s.t(ch[1]),s.inv(s.t(ch[2])))
        if d==z3.Z3_OP_FPA_NEG: return {k:-v for k,v in s.t(ch[0]).items()}
        if d==z3.Z3_OP_FPA_SQRT: return s.mono(s.atom('sqrt',[s.t(ch[1])]))
        if d==z3.Z3_OP_FPA_ABS: return s.mono(s.atom('abs',[s.t(ch[0])]))
        if d==z3.Z3_OP_FPA_ROUND_TO_INTEGRAL: return s.mono(s.atom('round'+str(ch[0]),[s.t(ch[1])]))
        if d==z3.Z3_OP_ITE:
            a,b=s.t(ch[1]),s.t(ch[2])
            return a if s.eq(a,b) else s.mono(s.atom('ite%d'%ch[0].get_id(),[a,b]))
        if d==z3.Z3_OP_FPA_TO_FP:
            if len(ch)==2 and isinstance(ch[1],z3.FPRef): return s.t(ch[1])
            if len(ch)==2: return s.leaf('int%s'%z3.simplify(ch[1]).sexpr())
            return s.leaf('bits%s'%z3.simplify(ch[0]).sexpr())
        if d==z3.Z3_OP_FPA_TO_FP_UNSIGNED: return s.leaf('uint%s'%z3.simplify(ch[1]).sexpr())
        if d==z3.Z3_OP_UNINTERPRETED:
            nm=e.decl().name()
            if nm.endswith('f') and nm[:-1] in('log','exp','sin','cos','tan','asin','acos','atan','pow','atan2','fmod'): nm=nm[:-1]
            return s.mono(s.atom(nm,[s.t(c) if isinstance(c,z3.FPRef) else c.sexpr() for c in ch]))
        raise No()
def equal(a,b):
    """True when the two terms have the same normal form"""
    try:
        n=NF(); x,y=n.t(a),n.t(b); return n.eq(x,y)
    except No: return False
    except ZeroDivisionError: return False
def goal_equal(g):
    if z3.is_eq(g) and isinstance(g.arg(0),z3.FPRef): return equal(g.arg(0),g.arg(1))
    if z3.is_and(g): return all(goal_equal(c) for c in g.children())
    if z3.is_app(g) and g.decl().kind()==z3.Z3_OP_FPA_EQ: return equal(g.arg(0),g.arg(1))
    return False
# ------------------------------------------------------------------ relative error of multiplicative chains
U64=Fraction(1,1<<53); U32=Fraction(1,1<<24)
def leaves(e,cond=()):
    """leaves of nested FP conditionals: (conditions, term)"""
    if z3.is_app(e) and e.decl().kind()==z3.Z3_OP_ITE and isinstance(e,z3.FPRef):
        yield from leaves(e.arg(1),cond+(e.arg(0),)); yield from leaves(e.arg(2),cond+(z3.Not(e.arg(0)),))
    else: yield cond,e
def relerr(e,cond_bound=4):
    """e = coef * prod atom^k * (1+eps): -> (coef, {atom:k}, bound on |eps|).  atoms: variables, integer conversions (exact below
    2^53), tan of such a product.  atan(k*tan(x)) with k=1+d is x*(1+eps) since the condition number of atan o tan is at most 1;
    tan(x(1+eps)) = tan(x)(1+cond_bound*eps) for |x|<=1.2."""
    if isinstance(e,(float,int)): return Fraction(e),{},Fraction(0)
    f=fconc(e) if isinstance(e,z3.FPRef) else None
    if f is not None:
        if f!=f or abs(f)==float('inf'): raise No()
        return Fraction(f),{},Fraction(0)
    d=e.decl().kind(); ch=e.children()
    u=U32 if isinstance(e,z3.FPRef) and e.sort()==z3.Float32() else U64
    if d in(z3.Z3_OP_FPA_MUL,z3.Z3_OP_FPA_DIV):
        a,b=relerr(ch[1],cond_bound),relerr(ch[2],cond_bound); sg=1 if d==z3.Z3_OP_FPA_MUL else -1
        m=dict(a[1])
        for k,v in b[1].items():
            m[k]=m.get(k,0)+sg*v
            if not m[k]: del m[k]
        c=a[0]*b[0] if sg>0 else a[0]/b[0]
        return c,m,(1+a[2])*(1+b[2] if sg>0 else 1/(1-b[2]))*(1+u)-1
    if d==z3.Z3_OP_FPA_NEG: a=relerr(ch[0],cond_bound); return -a[0],a[1],a[2]
    if d==z3.Z3_OP_FPA_TO_FP and len(ch)==2 and isinstance(ch[1],z3.BitVecRef) and ch[1].size()<=53 and e.sort()==z3.Float64(): return Fraction(1),{('int',z3.simplify(ch[1]).sexpr()):1},Fraction(0)
    if d==z3.Z3_OP_UNINTERPRETED and not ch: return Fraction(1),{('var',e.decl().name()):1},Fraction(0)
    if d==z3.Z3_OP_UNINTERPRETED and e.decl().name()=='tan':
        c,m,r=relerr(ch[0],cond_bound); return Fraction(1),{('tan',c,tuple(sorted(m.items()))):1},r*cond_bound+2*u
    if d==z3.Z3_OP_UNINTERPRETED and e.decl().name()=='atan':
        c,m,r=relerr(ch[0],cond_bound)
        if len(m)==1:
            (k,v),=m.items()
            if k[0]=='tan' and v==1 and abs(c-1)<Fraction(1,10**12): return k[1],dict(k[2]),r+abs(c-1)+2*u
        raise No()
    raise No()

# ------------------------------------------------------------------ arithmetic as unknowns
AR={z3.Z3_OP_FPA_ADD,z3.Z3_OP_FPA_SUB,z3.Z3_OP_FPA_MUL,z3.Z3_OP_FPA_DIV,z3.Z3_OP_FPA_SQRT,z3.Z3_OP_FPA_FMA,z3.Z3_OP_FPA_REM}
def arith(e): return isinstance(e,z3.FPRef) and z3.is_app(e) and e.num_args()>0 and (e.decl().kind() in AR or e.decl().kind()==z3.Z3_OP_UNINTERPRETED)
def choices(e,inside,seen,out):
    """conditions of the choices inside arithmetic terms, inner ones first"""
    k=(e.get_id(),inside)
    if k in seen or not z3.is_app(e): return
    seen.add(k)
    for ch in e.children(): choices(ch,inside or arith(e),seen,out)
    if inside and e.decl().kind()==z3.Z3_OP_ITE and isinstance(e,z3.FPRef): out.append(e.arg(0))
def decide(e,cond,v,memo):
    """e with the choices on the condition made"""
    r=memo.get(e.get_id())
    if r is not None: return r[0]
    if not z3.is_app(e) or not e.num_args(): r=e
    elif e.decl().kind()==z3.Z3_OP_ITE and e.arg(0).eq(cond): r=decide(e.arg(1 if v else 2),cond,v,memo)
    else:
        ch=[decide(c,cond,v,memo) for c in e.children()]
        r=e if all(a.eq(b) for a,b in zip(ch,e.children())) else e.decl()(*ch)
    memo[e.get_id()]=(r,e); return r
def abstract_prove(pc,goal,ms,most=40):
    """the goal with its maximal arithmetic terms replaced by unknowns (equal normal forms: the same unknown): comparisons,
    choices and classifications stay; choices inside of arithmetic are made case by case.  Proves what depends on the
    arithmetic only through its results."""
    import time
    n=NF(); known=[]; keep=[]; memo={}; left=[most]; end=time.time()+4*ms/1000
    def go(e):
        r=memo.get(e.get_id())
        if r is None: r=memo[e.get_id()]=go_(e); keep.append(e)
        return r
    def go_(e):
        if not z3.is_app(e) or not e.num_args(): return e
        if arith(e):
            t=n.t(e)
            for u,so,c in known:
                if so==e.sort() and n.eq(u,t): return c
            c=z3.FP('arith!%d'%len(known),e.sort()); known.append((t,e.sort(),c)); return c
        ch=[go(c) for c in e.children()]
        return e if all(a.eq(b) for a,b in zip(ch,e.children())) else e.decl()(*ch)
    P=[]
    def case(g,facts):
        if time.time()>end: return False
        cs=[]; choices(g,False,set(),cs)
        for c in cs:
            if z3.is_not(c): c0,neg=c.arg(0),True
            else: c0,neg=c,False
            a=go(c0); known_=[v for b,v in facts if b.eq(a)]
            if known_: return case(decide(g,c,known_[0]!=neg,{}),facts)
            left[0]-=1
            if left[0]<0: return False
            return all(case(decide(g,c,v!=neg,{}),facts+[(a,v)]) for v in(True,False))
        S=z3.Solver(); S.set('timeout',ms); S.add(*P)
        for a,v in facts: S.add(a if v else z3.Not(a))
        S.add(z3.Not(go(g))); return S.check()==z3.unsat
    try:
        for p in pc:
            cs=[]; choices(p,False,set(),cs)
            if cs: continue
            try: P.append(go(p))
            except (No,ZeroDivisionError): pass
        return case(goal,[])
    except (No,ZeroDivisionError,RecursionError): return False
