"""Abstraction of products of unknowns and of divisions by unknowns: every bit-vector sum/difference/product becomes its
polynomial normal form, whose non-linear monomials are uninterpreted function applications; y*(x div y) is x - (x mod y), with the
range axioms of div and mod. Sound for proofs: unsatisfiable after the abstraction implies unsatisfiable."""
import z3
DIV={z3.Z3_OP_BUDIV:'udiv',z3.Z3_OP_BSDIV:'sdiv',z3.Z3_OP_BUDIV_I:'udiv',z3.Z3_OP_BSDIV_I:'sdiv'}
REM={z3.Z3_OP_BUREM:'udiv',z3.Z3_OP_BSREM:'sdiv',z3.Z3_OP_BUREM_I:'udiv',z3.Z3_OP_BSREM_I:'sdiv'}
ARITH={z3.Z3_OP_BADD,z3.Z3_OP_BSUB,z3.Z3_OP_BMUL,z3.Z3_OP_BNEG}
class Abs:
    def __init__(s): s.memo={}; s.ax=[]; s.axs=set(); s.n=0; s.poly={}; s.keep=[]; s.built={}; s.qb={}; s.qs={}; s.nl={}
    def uf(s,nm,*a):
        w=a[0].size(); f=z3.Function('%s%d_%d'%(nm,len(a),w),*[z3.BitVecSort(w)]*(len(a)+1)); r=f(*a); s.keep.append(r); return r
    def P(s,t):
        p=s.poly.get(t.get_id())
        if p is not None: return p
        if z3.is_bv_value(t): v=t.as_long(); return {():v} if v else {}
        s.keep.append(t); return {((t.get_id(),t),):1}
    def add(s,p,q,k,w):
        r=dict(p)
        for m,c in q.items():
            v=(r.get(m,0)+k*c)%(1<<w)
            if v: r[m]=v
            else: r.pop(m,None)
        return r
    def mul(s,p,q,w):
        r={}
        for m,c in p.items():
            for n,d in q.items():
                k=tuple(sorted(m+n,key=lambda x:x[0])); v=(r.get(k,0)+c*d)%(1<<w)
                if v: r[k]=v
                else: r.pop(k,None)
        return r
    def reduce(s,p,w):
        for _ in range(20):
            for m,c in p.items():
                if len(m)==1 and m[0][0] in s.qs and c%(1<<s.qs[m[0][0]][0])==0:
                    k,py=s.qs[m[0][0]]; s.n+=1; p=dict(p); del p[m]; p=s.add(p,py,c>>k,w); break
                ids=[a[0] for a in m]; hit=None
                for a in ids:
                    if a in s.qb and s.qb[a][0] in ids: hit=a; break
                if hit is None: continue
                b,pa,r=s.qb[hit]; rest=list(m); rest.remove([x for x in rest if x[0]==hit][0]); rest.remove([x for x in rest if x[0]==b][0]); rest={tuple(rest):c}
                p=dict(p); del p[m]; p=s.add(p,s.mul(pa,rest,w),1,w); p=s.add(p,s.mul(s.P(r),rest,w),-1,w); break
            else: return p
        return p
    def build(s,p,w):
        p=s.reduce(p,w)
        items=sorted(p.items(),key=lambda x:(len(x[0]),[a[0] for a in x[0]])); key=(w,tuple((tuple(a[0] for a in m),c) for m,c in items))
        t=s.built.get(key)
        s.n+=any(len(m)>1 for m in p) # counts as abstraction even when already built
        if t is None:
            t=None
            for m,c in items:
                if not m: e=z3.BitVecVal(c,w)
                else:
                    e=m[0][1]
                    if len(m)>1: e=s.uf('mul',*[a[1] for a in m]); s.n+=1
                    if c!=1: e=c*e
                t=e if t is None else t+e
            if t is None: t=z3.BitVecVal(0,w)
            s.built[key]=t; s.keep.append(t)
        s.poly.setdefault(t.get_id(),p); return t
    def axiom(s,a):
        i=a.get_id()
        if i not in s.axs: s.axs.add(i); s.ax.append(a)
    def go(s,e):
        st=[e]
        while st:
            x=st[-1]; k=x.get_id()
            if k in s.memo: st.pop(); continue
            if not z3.is_app(x) or x.num_args()==0: s.memo[k]=(x,x); st.pop(); continue
            todo=[c for c in x.children() if c.get_id() not in s.memo]
            if todo: st+=todo; continue
            st.pop(); n0=s.n; ch=[s.memo[c.get_id()][1] for c in x.children()]; kd=x.decl().kind(); r=None
            if kd in DIV and not z3.is_bv_value(ch[1]): r=s.div(DIV[kd],*ch)
            elif kd in REM and not z3.is_bv_value(ch[1]): r=s.div(REM[kd],*ch,rem=True)
            elif kd in ARITH:
                w=x.size(); ps=[s.P(c) for c in ch]
                if kd!=z3.Z3_OP_BMUL or all(len(p)<=6 for p in ps):
                    if kd==z3.Z3_OP_BNEG: p=s.add({},ps[0],-1,w)
                    else:
                        p=ps[0]
                        for q in ps[1:]: p=s.mul(p,q,w) if kd==z3.Z3_OP_BMUL else s.add(p,q,1 if kd==z3.Z3_OP_BADD else -1,w)
                    if len(p)<=40: r=s.build(p,w)
            if r is None: r=x if all(a is b or a.eq(b) for a,b in zip(ch,x.children())) else x.decl()(*ch)
            sh=s.shift(kd,ch)
            if sh:
                py=s.P(sh[0])
                if all(c%(1<<sh[1])==0 for c in py.values()): s.qs[r.get_id()]=(sh[1],py); s.keep.append(r)
            s.memo[k]=(x,r); s.nl[k]=any(s.nl.get(c.get_id(),False) for c in x.children()) or s.n!=n0
        return s.memo[e.get_id()][1]
    def shift(s,kd,ch):
        """(y,k) when the term is y >> k"""
        V=z3.is_bv_value
        if kd in(z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I) and V(ch[1]): v=ch[1].as_long(); return (ch[0],v.bit_length()-1) if v>1 and v&(v-1)==0 else None
        if kd==z3.Z3_OP_BLSHR and V(ch[1]) and 0<ch[1].as_long()<ch[0].size(): return ch[0],ch[1].as_long()
        if kd==z3.Z3_OP_CONCAT and len(ch)==2 and V(ch[0]) and ch[0].as_long()==0 and ch[1].decl().kind()==z3.Z3_OP_EXTRACT:
            h,l=ch[1].params(); y=ch[1].arg(0)
            if h==y.size()-1 and l==ch[0].size() and l>0: return y,l
    def div(s,nm,a,b,rem=False):
        q=s.uf(nm,a,b); r=s.uf(nm.replace('div','rem'),a,b); s.n+=1
        if nm=='udiv':
            s.axiom(z3.Implies(b!=0,z3.ULT(r,b))); s.axiom(z3.Implies(b!=0,z3.ULE(q,a))); s.axiom(z3.ULE(r,a))
        pb=s.P(b)
        if len(pb)==1:
            (m,c),=pb.items()
            if len(m)==1 and c==1: s.qb[q.get_id()]=(m[0][0],s.P(a),r)
        return r if rem else q
def prove(pc,goal,ms):
    A=Abs()
    try: fs=[A.go(p) for p in list(pc)+[z3.Not(goal)]]
    except z3.Z3Exception: return False
    if not A.n: return False
    S=z3.Solver(); S.set('timeout',ms); S.add(*fs); S.add(*A.ax)
    return S.check()==z3.unsat
