"""polynomial normal form of 64-bit bit-vector terms (mod 2^64)"""
import z3
M=1<<64
_atoms={}
def to_poly(e,depth=0):
    if isinstance(e,int): return {():e%M}
    if z3.is_bv_value(e): return {():e.as_long()}
    k=e.decl().kind()
    if k==z3.Z3_OP_BADD:
        r={}
        for c in e.children():
            for m,x in to_poly(c).items(): r[m]=(r.get(m,0)+x)%M
        return {m:x for m,x in r.items() if x} or {():0}
    if k==z3.Z3_OP_BSUB:
        r=dict(to_poly(e.arg(0)))
        for c in e.children()[1:]:
            for m,x in to_poly(c).items(): r[m]=(r.get(m,0)-x)%M
        return {m:x for m,x in r.items() if x} or {():0}
    if k==z3.Z3_OP_BNEG:
        return {m:(-x)%M for m,x in to_poly(e.arg(0)).items()}
    if k==z3.Z3_OP_BMUL:
        r={():1}
        for c in e.children():
            p=to_poly(c); q={}
            for m1,x1 in r.items():
                for m2,x2 in p.items():
                    m=tuple(sorted(m1+m2)); q[m]=(q.get(m,0)+x1*x2)%M
            r={m:x for m,x in q.items() if x} or {():0}
        return r
    if k==z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
        s=e.arg(1).as_long(); return {m:(x<<s)%M for m,x in to_poly(e.arg(0)).items()}
    i=e.get_id(); _atoms[i]=e
    return {(i,):1}
def from_poly(p):
    ts=[]
    for m,c in p.items():
        t=z3.BitVecVal(c,64)
        for a in m: t=t*_atoms[a]
        ts.append(t)
    r=ts[0] if ts else z3.BitVecVal(0,64)
    for t in ts[1:]: r=r+t
    return z3.simplify(r)
def poly_factor(rel,stride):
    """rel = stride*q + r with stride a single monomial; returns (q,r) syntactic (mod 2^64)"""
    p=to_poly(rel); s=to_poly(stride)
    if len(s)!=1: return None
    (sm,sc),=s.items()
    q={}; r={}
    for m,c in p.items():
        mm=list(m); ok=True
        for a in sm:
            if a in mm: mm.remove(a)
            else: ok=False; break
        if ok and c%sc==0: q[tuple(mm)]=c//sc
        else: r[m]=c
    return from_poly(q or {():0}),from_poly(r or {():0})
