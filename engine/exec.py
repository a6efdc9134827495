from sym import *
import sym, subprocess, re
from llvmir import TK
import llvmir

def demangle(names):
    r=subprocess.run(['llvm-cxxfilt-18'],input='\n'.join(names).encode(),stdout=subprocess.PIPE)
    return r.stdout.decode().split('\n')[:len(names)]

ABSFP={z3.Z3_OP_FPA_ADD,z3.Z3_OP_FPA_SUB,z3.Z3_OP_FPA_MUL,z3.Z3_OP_FPA_DIV,z3.Z3_OP_FPA_SQRT,z3.Z3_OP_FPA_FMA,z3.Z3_OP_FPA_REM,z3.Z3_OP_UNINTERPRETED}
class Program:
    """set of modules, linked by symbol name"""
    def __init__(s,mods):
        s.mods=mods; s.funcs={}; s.globals={}
        for m in mods:
            for n,f in m.funcs.items():
                if not f.decl and n not in s.funcs: s.funcs[n]=f
                m_internal=True
            for n,g in m.globals.items():
                if llvmir.GlobInit(g) and n not in s.globals: s.globals[n]=(m,g)
        for m in mods:
            for a,b in m.aliases.items():
                f=m.funcs.get(b)
                if f is not None and not f.decl and (a not in s.funcs or s.funcs[a].decl): s.funcs[a]=f
        names=set()
        for m in mods:
            names|=set(m.funcs)
        names=sorted(names); s.dem=dict(zip(names,demangle(names)))
        s.bydem={}
        for n,d in s.dem.items(): s.bydem.setdefault(d,n)
    def lookup(s,mod,name):
        f=mod.funcs.get(name)
        if f is not None and not f.decl: return f
        return s.funcs.get(name)
    def find(s,pat,regex=False):
        """mangled names of defined functions whose demangled name starts with pat"""
        r=[n for n,f in s.funcs.items() if (re.search(pat,s.dem.get(n,n)) if regex else s.dem.get(n,n).startswith(pat))]
        return r

class Loops:
    def __init__(s,f):
        n=len(f.blocks)
        # dominators
        dom=[set(range(n)) for _ in range(n)]; dom[0]={0}; ch=True
        while ch:
            ch=False
            for i in range(1,n):
                ps=f.blocks[i].preds
                if not ps: new={i}
                else: new=set.intersection(*[dom[p] for p in ps])|{i}
                if new!=dom[i]: dom[i]=new; ch=True
        s.loops={}
        for i in range(n):
            for t in f.blocks[i].succs:
                if t in dom[i]:
                    body={t,i}; st=[i]
                    while st:
                        x=st.pop()
                        if x==t: continue
                        for p in f.blocks[x].preds:
                            if p not in body: body.add(p); st.append(p)
                    s.loops.setdefault(t,set()).update(body)
        # innermost loop header of each block
        s.inner={}
        for h,b in sorted(s.loops.items(),key=lambda x:-len(x[1])):
            for x in b: s.inner[x]=h

class Frame:
    __slots__=('f','regs','outs','depth','stack')
    pass
INT='int'
class Ctx:
    """One verification run"""
    def __init__(s,prog,name='',solver_timeout=20000,feas_timeout=1500):
        s.slow_loop=1e9; s.lazy_read=False; s.prog=prog; s.name=name; s.obls=[]; s.models={}; s.contracts={}; s.assumptions=set(); s.inlined=set(); s.applied=set()
        s.globmem={}; s.timeout=solver_timeout; s.ftimeout=feas_timeout
        import absnl; s.absn=absnl.Abs(); s.feas_cache={}; s.disj_cache={}; s.stats=dict(feas=0,feas_t=0.0,ins=0,solver_t=0.0)
        s.memok=0; s.mute=0; s.max_unroll=200000; s.sym_unroll=0; s.check_mem=True; s.check_overflow=False
        s.max_paths=4000; s.cur=[]; s.loop_hook=None; s.max_ins=60000000; s.covers=[]; s.deadline=None
        s.loopsummaries=0; s.model_re=[]; s.tys={}
        s.feas_cap=None
    # ---------------- obligations
    def oblige(s,st,goal,name,kind='post'):
        if s.mute: return
        if isinstance(goal,(bool,int)):
            if goal:
                o=Obligation(name,(),True,kind,'/'.join(s.cur[-3:])); o.status='ok'; o.solver='syntactic'; s.obls.append(o); return
            goal=FALSE
        o=Obligation(name,st.pc,goal,kind,'/'.join(s.cur[-3:])); s.obls.append(o)
        return o
    def solver(s,t=None):
        S=z3.Solver(); S.set('timeout',int(t or s.ftimeout)); return S
    heavy=None # conditions branches need not consult (a branch kept although impossible is only more work)
    def light(s,st):
        if s.heavy is None: return st
        c=s.__dict__.setdefault('_heavy',{}); out=[]
        for p in st.pc:
            k=p.get_id()
            if k not in c: c[k]=(s.heavy(p),p)
            if not c[k][0]: out.append(p)
        r=State(); r.pc=tuple(out); return r
    def feasible(s,st,*extra):
        ex=[]
        for e in extra:
            if isinstance(e,(bool,int)):
                if not e: return False
                continue
            if z3.is_true(e): continue
            if z3.is_false(e): return False
            e2=z3.simplify(e)
            if z3.is_true(e2): continue
            if z3.is_false(e2): return False
            for p in st.pc:
                if e.eq(p): break
                if (z3.is_not(e) and e.arg(0).eq(p)) or (z3.is_not(p) and p.arg(0).eq(e)): return False
            else: ex.append(e2)
        if not ex: 
            return True
        if getattr(s,'abstract_fp',False):
            # arithmetic as unknowns: more is held feasible, never less
            pc=[s.abs_fp(p) for p in st.pc]; ex=[s.abs_fp(e) for e in ex]
        else: pc=st.pc
        key=(tuple(p.get_id() for p in pc),tuple(e.get_id() for e in ex))
        r=s.feas_cache.get(key)
        if r is not None: return r[0]
        t=time.time(); res=None
        ab=s.absn
        try:
            fs=[ab.go(p) for p in pc]+[ab.go(e) for e in ex]
            if ab.n:
                lin=[f for f,p in zip(fs,list(pc)+ex) if not ab.nl.get(p.get_id(),False)]
                if len(lin)<len(fs) and lin: S=s.solver(min(500,s.ftimeout)); S.add(*lin); res=S.check()
                if res==z3.unsat: pass
                else: S=s.solver(min(500,s.ftimeout)); S.add(*fs); S.add(*ab.ax); res=S.check()
        except z3.Z3Exception: pass
        if res!=z3.unsat: S=s.solver(); S.add(*pc); S.add(*ex); res=S.check()
        s.stats['feas']+=1; s.stats['feas_t']+=time.time()-t
        r=res!=z3.unsat
        s.feas_cache[key]=(r,pc,ex)
        return r
    def abs_fp(s,e):
        """e with its maximal floating-point arithmetic terms replaced by unknowns (one for each term)"""
        m=s.__dict__.setdefault('_absfp',{}); r=m.get(e.get_id())
        if r is not None: return r[0]
        if not z3.is_app(e) or not e.num_args(): r=e
        elif isinstance(e,z3.FPRef) and e.decl().kind() in ABSFP: r=z3.FP('arith!%d'%len(m),e.sort())
        else:
            ch=[s.abs_fp(c) for c in e.children()]
            r=e if all(x.eq(y) for x,y in zip(ch,e.children())) else e.decl()(*ch)
        m[e.get_id()]=(r,e); return r
    def must(s,st,c):
        if isinstance(c,(bool,int)): return bool(c)
        c=z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return not s.feasible_pc(st)
        return not s.feasible(st,z3.Not(c))
    def feasible_pc(s,st):
        S=s.solver(); S.add(*([s.abs_fp(p) for p in st.pc] if getattr(s,'abstract_fp',False) else st.pc)); return S.check()!=z3.unsat
    # ---------------- objects
    def new(s,st,name,size,kind='heap',base=None,const=False):
        o=Obj(name,size,kind,const); st.mem[o.id]=Content(base,None,st.tok); return o
    def buf(s,st,name,size,const=True,arr=None):
        """input buffer of arbitrary bytes"""
        a=arr if arr is not None else z3.Array(name,z3.BitVecSort(64),z3.BitVecSort(8))
        o=s.new(st,name,size,'arg',a,const); o.meta['arr']=a; return o
    def content(s,st,obj):
        c=st.mem.get(obj.id)
        if c is None:
            c=s.globmem.get(obj.id)
            if c is None: raise Unsupported('no content for %r'%obj)
        return c
    # ---------------- memory access
    def resolve(s,st,p):
        """-> list of (cond, Ptr)"""
        p=as_ptr(p)
        if isinstance(p,PtrIte):
            return [(c,q) for c,q in p.alts if s.feasible(st,c)]
        return [(True,p)]
    def chk(s,st,cond,p,n,what):
        """memory-safety obligation for an access of n bytes at p under cond; returns False if it must fail"""
        if isinstance(p,FnPtr) or p.obj is None:
            if isinstance(p,Ptr) and p.obj is None and not isinstance(p.off,int): pass
            s.fail_access(st,cond,'%s through null/invalid pointer'%what); return False
        o=p.obj
        if o.id in st.freed:
            s.fail_access(st,cond,'%s of freed %s'%(what,o.name)); return False
        if o.size is None: return True
        off=p.off
        if isinstance(off,int) and isinstance(o.size,int) and isinstance(n,int):
            so=off&MASK[64]; so=so-(1<<64) if so>>63 else so
            if 0<=so and so+n<=o.size: 
                s.memok+=1; return True
            s.fail_access(st,cond,'%s out of bounds of %s (offset %d size %d, %d bytes)'%(what,o.name,so,o.size,n)); return False
        O=bv(off,64); S=bv(o.size,64); N=bv(n,64)
        g=z3.And(z3.ULE(N,S),z3.ULE(O,S-N))
        if not s.check_mem or s.mute: return True
        g2=z3.simplify(g)
        if z3.is_true(g2): return True
        goal=g if cond is True else z3.Implies(cond,g)
        s.oblige(st,goal,'%s in bounds of %s at %s'%(what,o.name,s.here()),'memsafe')
        st.assume(goal)
        return True
    def fail_access(s,st,cond,msg):
        if s.mute: return
        if cond is True: s.oblige(st,FALSE,msg+' at '+s.here(),'memsafe')
        else: s.oblige(st,Not(cond),msg+' at '+s.here(),'memsafe')
    def here(s):
        return '%s:%s'%(s.cur[-1] if s.cur else '?',getattr(s,'line',0))
    def load(s,st,p,ty):
        n=ty.store
        if ty.k in('struct','array'):
            els=ty.els if ty.k=='struct' else [ty.el]*ty.n
            offs=ty.offs if ty.k=='struct' else [i*ty.el.size for i in range(ty.n)]
            out=[]
            for e,o in zip(els,offs): out.append(s.load(st,s.padd(p,o),e))
            return out
        alts=s.resolve(st,p); res=None
        good=[]
        for c,q in alts:
            if s.chk(st,c,q,n,'read'): good.append((c,q))
        if not good: raise DeadPath()
        if len(good)<len(alts): 
            st.assume(Or(*[c for c,q in good]))
        for i,(c,q) in enumerate(reversed(good)):
            v=s.read(st,q.obj,q.off,n,ty)
            res=v if i==0 else vite(c,v,res,n)
        return res
    def conv(s,v,n,ty):
        """raw stored value of n bytes -> LLVM type ty"""
        if v is UNDEF: return UNDEF if ty is None or ty.k!='int' or True else fresh('undef',8*n)
        if ty is None: return v
        if ty.k=='ptr':
            if isptr(v): return v
            if isinstance(v,int): return as_ptr(v)
            if isinstance(v,z3.BitVecRef): return Ptr(None,v)
            raise Unsupported('load ptr from %r'%(v,))
        if ty.k in('float','double'):
            if isinstance(v,(float,z3.FPRef)): return v
            if isinstance(v,(int,z3.BitVecRef)): return bits_fp(v,n)
            raise Unsupported('fp load of %r'%(v,))
        if ty.k=='int':
            if isptr(v): return v
            if isinstance(v,(float,z3.FPRef)): v=fp_bits(v,n)
            if ty.w==1:
                if isinstance(v,int): return bool(v&1)
                if isinstance(v,z3.BitVecRef): return simp(z3.Extract(0,0,v)==1)
                return v
            if isinstance(v,bool): return int(v)
            if isinstance(v,z3.BoolRef): return bv(v,ty.w)
            if ty.w<8*n:
                if isinstance(v,int): return v&MASK[ty.w]
                return norm(z3.simplify(z3.Extract(ty.w-1,0,v)))
            return v
        raise Unsupported('load type %r'%ty.k)
    def read(s,st,obj,off,n,ty=None):
        c=s.content(st,obj)
        v=s._read(st,c,len(c.layers)-1,off,n,obj)
        return s.conv(v,n,ty)
    def _read(s,st,c,li,off,n,obj):
        while li>=0:
            L=c.layers[li]
            if isinstance(L,Cells):
                d=L.d
                if not d: li-=1; continue
                if isinstance(off,int):
                    v=d.get(off)
                    if v is not None and v[0]==n: return v[1]
                    hit=[(o,d[o]) for o in range(off-15,off+n) if o in d and o+d[o][0]>off]
                    if not hit: li-=1; continue
                    # bytewise
                    if n==1:
                        o,(m,val)=hit[-1]
                        if isptr(val): raise Unsupported('byte of pointer')
                        return bytes_of(val,m)[off-o]
                    o,(m,val)=hit[0]
                    if len(hit)==1 and o<=off and o+m>=off+n and not isptr(val):
                        if val is UNDEF: return UNDEF
                        if isinstance(val,float): val=f2bits(val,m)
                        if isinstance(val,z3.FPRef): val=fp_bits(val,m)
                        if isinstance(val,int): return (val>>(8*(off-o)))&MASK[8*n]
                        return norm(z3.simplify(z3.Extract(8*(off-o)+8*n-1,8*(off-o),bv(val,8*m))))
                    return from_bytes([s._read(st,c,li,off+i,1,obj) for i in range(n)])
                else:
                    rest=s._read(st,c,li-1,off,n,obj) if (li>0 or c.base is not None) else UNDEF
                    items=[(o,m,v) for o,(m,v) in d.items()]
                    if any(m!=n for o,m,v in items):
                        if n>1 and all(m==1 for o,m,v in items):
                            return from_bytes([s._read(st,c,li,off_add(off,i),1,obj) for i in range(n)])
                        # only cells that can be hit
                        items2=[]
                        for o,m,v in items:
                            cond=z3.And(z3.ULT(bv(off,64),bv(o+m,64)),z3.ULT(bv(o,64),bv(off,64)+n))
                            if s.feasible(st,cond): items2.append((o,m,v))
                        items=items2
                        if any(m!=n for o,m,v in items): raise Unsupported('symbolic-offset read over mixed cells of %s'%obj.name)
                    if len(items)>48:
                        # one value written all along a stretch
                        v0=items[0][2]; one=lambda v: not isptr(v) and v is not UNDEF and (v is v0 or same(v,v0))
                        if all(one(v) for _,_,v in items):
                            os_=sorted(o for o,_,_ in items); lo=os_[0]
                            if os_==list(range(lo,lo+n*len(os_),n)):
                                O=bv(off,64)-lo; inside=z3.ULT(O,n*len(os_))
                                if n==1 or s.must(st,z3.Or(z3.URem(O,z3.BitVecVal(n,64))==0,z3.And(z3.UGE(O,n*len(os_)),z3.ULE(O,z3.BitVecVal(-n,64))))):
                                    if rest is UNDEF and s.must(st,inside): return v0
                                    if rest is not UNDEF: return vite(inside,v0,rest,n)
                    if len(items)>8000: raise Unsupported('symbolic-offset read over %d cells'%len(items))
                    if len(items)>48 and n in(1,2,4,8) and not any(isptr(v) for _,_,v in items):
                        return s.read_table(st,items,off,n,rest,d)
                    O=bv(off,64); res=rest
                    if len(items)<=48:
                        # alignment assumption check: offset must coincide with a cell or miss all
                        for o,m,v in items:
                            if n>1 and not getattr(s,'assume_aligned',True): pass
                    for o,m,v in items:
                        cnd=z3.simplify(O==o)
                        if z3.is_false(cnd): continue
                        res=vite(cnd,v,res,n)
                    return res
            elif isinstance(L,SymW):
                O=bv(off,64); W=bv(L.off,64)
                eq=z3.simplify(O==W)
                if L.n==n:
                    if z3.is_true(eq): return L.val
                    if z3.is_false(eq) and n==1: li-=1; continue
                    if n==1 and s.lazy_read: return vite(O==W,L.val,s._read(st,c,li-1,off,n,obj),n)
                    if s.must(st,O==W): return L.val
                disj=Or(z3.ULE(O+n,W),z3.ULE(W+L.n,O))
                if s.must(st,disj): li-=1; continue
                if L.n==n:
                    if n==1 or s.must(st,Or(O==W,disj)):
                        return vite(O==W,L.val,s._read(st,c,li-1,off,n,obj),n)
                if n>1: return from_bytes([s._read(st,c,li,off_add(off,i),1,obj) for i in range(n)])
                # n==1, L.n>1
                rel=O-W; res=s._read(st,c,li-1,off,n,obj)
                for i,b in enumerate(bytes_of(L.val,L.n)): res=vite(rel==i,b,res,1)
                return res
            elif isinstance(L,Range):
                if isinstance(off,int) and isinstance(L.lo,int) and isinstance(L.n,int):
                    if off>=L.lo+L.n or off+n<=L.lo: li-=1; continue
                    if off>=L.lo and off+n<=L.lo+L.n: return L.fn(s,st,off-L.lo,n)
                    return from_bytes([s._read(st,c,li,off+i,1,obj) for i in range(n)])
                if isinstance(L.lo,int) and L.lo==0 and obj is not None and s.same_size(L.n,obj.size): return L.fn(s,st,off,n) # the accesses are checked to be in bounds
                O=bv(off,64); lo=bv(L.lo,64); N=bv(L.n,64)
                rel=norm(z3.simplify(O-lo))
                inr=z3.And(z3.ULT(bv(rel,64),N),z3.ULE(bv(rel,64)+n,N),z3.ULE(bv(n,64),N))
                if s.must(st,inr): return L.fn(s,st,rel,n)
                out=z3.And(z3.UGE(bv(rel,64),N),z3.ULE(bv(rel,64),-bv(n,64)))
                if s.must(st,out): li-=1; continue
                if n>1 and not s.must(st,Or(inr,out)):
                    return from_bytes([s._read(st,c,li,off_add(off,i),1,obj) for i in range(n)])
                return vite(inr,L.fn(s,st,rel,n),s._read(st,c,li-1,off,n,obj),n)
            elif isinstance(L,MapR):
                return s.read_map(st,c,li,L,off,n,obj)
            else: raise Unsupported('layer')
        b=c.base
        if b is None: return UNDEF
        if b=='zero' if isinstance(b,str) else False: return 0
        if isinstance(b,z3.ArrayRef):
            if n==1: return z3.Select(b,bv(off,64))
            if isinstance(off,int): return z3.Concat(*[z3.Select(b,z3.BitVecVal(off+i,64)) for i in reversed(range(n))])
            O=bv(off,64); return z3.Concat(*[z3.Select(b,z3.simplify(O+i)) for i in reversed(range(n))])
        if callable(b): return b(s,st,off,n)
        raise Unsupported('base')
    def same_size(s,a,b):
        if isinstance(a,int) or isinstance(b,int): return isinstance(a,int) and isinstance(b,int) and a==b
        return a.eq(b) or z3.is_true(z3.simplify(a==b))
    def runs(s,items,off,n):
        """constant table of bytes made of a few runs of equal or consecutive values: a piecewise form"""
        if n!=1 or not all(isinstance(v,int) for _,_,v in items): return None
        it=sorted((o,v) for o,_,v in items)
        if [o for o,v in it]!=list(range(it[0][0],it[0][0]+len(it))): return None
        R=[]
        for o,v in it:
            if R and (R[-1][2]!=0 and v==R[-1][1]+(o-R[-1][0]) or R[-1][2]!=1 and v==R[-1][1]):
                a,b,m,l=R[-1]; m=1 if v!=b else 0
                R[-1]=(a,b,m,o)
            else: R.append((o,v,2,o))
        if len(R)>20: return None
        O=bv(off,64); lo=z3.Extract(7,0,O); res=None
        for a,b,m,l in reversed(R):
            e=lo+z3.BitVecVal((b-a)&255,8) if m==1 else z3.BitVecVal(b,8); res=e if res is None else z3.If(z3.ULE(O,l),e,res)
        return z3.simplify(res)
    def read_table(s,st,items,off,n,rest,key):
        """constant-ish table with symbolic index -> z3 array"""
        r=s.runs(items,off,n)
        if r is not None: return r
        k=('tab',id(key),len(key))
        t=s.tys.get(k)
        if t is None:
            fp=any(isinstance(v,(float,z3.FPRef)) for _,_,v in items)
            srt=fsort(n) if fp else z3.BitVecSort(8*n)
            a=z3.Array(fname('tab'),z3.BitVecSort(64),srt) if rest is UNDEF or rest is None else z3.K(z3.BitVecSort(64),fpz(rest,n) if fp else bv(rest,8*n)) if not(isinstance(rest,z3.ExprRef)) else None
            if a is None: raise Unsupported('table over symbolic base')
            for o,m,v in items: a=z3.Store(a,z3.BitVecVal(o,64),fpz(v,n) if fp else bv(v,8*n))
            t=(a,key); s.tys[k]=t
        return z3.Select(t[0],bv(off,64))
    def read_map(s,st,c,li,L,off,n,obj):
        O=bv(off,64)
        below=None
        def get_below():
            return s._read(st,c,li-1,off,n,obj)
        cnt=bv(L.cnt,64); stride=L.stride
        # span covered: [lo, lo+stride*cnt)
        if isinstance(stride,int) and stride!=0:
            ss=stride-(1<<64) if stride>>63 else stride
            if ss<0: raise Unsupported('negative stride map')
            lo=bv(L.lo,64); rel=z3.simplify(O-lo)
            if isinstance(norm(rel),int):
                r=norm(rel)
                if r>>63: return get_below()
                j=r//ss; inr=z3.And(z3.ULT(z3.BitVecVal(j,64),cnt)); rr=r%ss
                J=z3.BitVecVal(j,64)
                return s.map_iter(st,L,J,inr,off,n,rr,get_below,obj,c,li)
            J=z3.UDiv(rel,z3.BitVecVal(ss,64)); RR=z3.URem(rel,z3.BitVecVal(ss,64))
            J,RR=s.divmod_poly(st,rel,ss,J,RR)
            inr=z3.ULT(J,cnt)
            return s.map_iter(st,L,J,inr,off,n,norm(z3.simplify(RR)),get_below,obj,c,li)
        # symbolic stride: use an index hint
        q=s.poly_div(st,z3.simplify(O-bv(L.lo,64)),bv(stride,64))
        if q is None: raise Unsupported('cannot locate offset in symbolic-stride map')
        J,RR=q
        if not s.must(st,z3.ULE(RR+n,bv(L.ext,64))): raise Unsupported('offset not inside the iteration extent')
        inr=z3.ULT(J,cnt)
        return s.map_iter(st,L,J,inr,off,n,norm(z3.simplify(RR)),get_below,obj,c,li)
    def divmod_poly(s,st,rel,ss,J,RR):
        """try to split rel = ss*q + r syntactically"""
        from poly import to_poly,from_poly
        p=to_poly(rel)
        if p is None: return J,RR
        q={m:c//ss for m,c in p.items() if c%ss==0}; r={m:c for m,c in p.items() if c%ss}
        if not r: r={():0}
        Q=from_poly(q); R=from_poly(r)
        # value-wise equality holds modulo 2^64; need r<ss and no wrap of ss*q
        lim=(1<<64)//ss
        if s.must(st,z3.And(z3.ULT(R,ss),z3.ULT(Q,lim))): return z3.simplify(Q),z3.simplify(R)
        return J,RR
    def poly_div(s,st,rel,stride):
        from poly import to_poly,from_poly,poly_factor
        r=poly_factor(rel,stride)
        if r is None: return None
        return r
    def map_iter(s,st,L,J,inr,off,n,rr,get_below,obj,c,li):
        res=None; first=True
        acc=None
        parts=[]
        for g,woff,wn,wval in L.writes:
            sub=lambda e: subst(e,L.k,J)
            wo=sub(woff); wg=sub(g)
            d=z3.simplify(bv(off,64)-bv(wo,64)) if not(isinstance(off,int) and isinstance(wo,int)) else z3.BitVecVal(off-wo,64)
            dn=norm(d)
            if isinstance(dn,int):
                sd=dn-(1<<64) if dn>>63 else dn
                if sd>=wn or sd+n<=0: continue
                hit=True
            else:
                hit=None
            parts.append((wg,wo,wn,wval,dn,hit))
        val=None
        st2=st
        if s.must(st,inr): inside=True
        elif s.must(st,Not(inr)): return get_below()
        else: inside=None
        res=None; have=False
        for wg,wo,wn,wval,dn,hit in parts:
            v=subst(wval,L.k,J)
            if wn==n and hit and dn==0:
                eq=True; vv=v
            elif hit:
                if wn==1 or isinstance(dn,int) and 0<=(dn-(1<<64) if dn>>63 else dn) and dn+n<=wn:
                    vv=from_bytes(bytes_of(v,wn)[dn:dn+n]); eq=True
                else: raise Unsupported('partial overlap in map')
            else:
                e=bv(off,64)==bv(wo,64)
                st3=st
                if wn==n:
                    dis=Or(z3.ULE(bv(off,64)+n,bv(wo,64)),z3.ULE(bv(wo,64)+wn,bv(off,64)))
                    if s.must2(st,inr,e): eq=True
                    elif s.must2(st,inr,dis): continue
                    elif s.must2(st,inr,Or(e,dis)): eq=e
                    else: raise Unsupported('misaligned read in map')
                    vv=v
                elif n<wn:
                    rel=bv(off,64)-bv(wo,64)
                    if n!=1: raise Unsupported('sub-read in map')
                    bs=bytes_of(v,wn); vv=bs[0]
                    for i in range(1,wn): vv=vite(rel==i,bs[i],vv,1)
                    eq=z3.ULT(rel,wn)
                else: raise Unsupported('wide read in map')
            cond=And(eq,wg)
            if not have and cond is True: res=vv; have=True
            elif cond is True: res=vv
            else:
                if not have: res=get_below(); have=True
                res=vite(cond,vv,res,n)
        if not have: return get_below()
        if inside: return res
        return vite(inr,res,get_below(),n)
    def must2(s,st,hyp,c):
        return not s.feasible(st,hyp,Not(c)) if not isinstance(c,bool) else c
    def store(s,st,p,val,ty):
        if ty.k in('struct','array'):
            els=ty.els if ty.k=='struct' else [ty.el]*ty.n
            offs=ty.offs if ty.k=='struct' else [i*ty.el.size for i in range(ty.n)]
            if val is UNDEF: val=[UNDEF]*len(els)
            for e,o,v in zip(els,offs,val): s.store(st,s.padd(p,o),v,e)
            return
        n=ty.store
        if ty.k=='int':
            if ty.w==1:
                if isinstance(val,bool): val=int(val)
                elif isinstance(val,z3.BoolRef): val=z3.If(val,z3.BitVecVal(1,8),z3.BitVecVal(0,8))
            elif ty.w%8 and not isptr(val) and val is not UNDEF:
                val=norm(z3.simplify(z3.ZeroExt(8*n-ty.w,bv(val,ty.w))))
        alts=s.resolve(st,p); good=[]
        for c,q in alts:
            if s.chk(st,c,q,n,'write'):
                if q.obj.const and not s.mute: s.oblige(st,Not(c) if c is not True else FALSE,'write to read-only %s at %s'%(q.obj.name,s.here()),'memsafe'); 
                good.append((c,q))
        if not good: raise DeadPath()
        if len(good)<len(alts): st.assume(Or(*[c for c,q in good]))
        for c,q in good:
            v=val
            if len(good)>1: v=vite(c,val,s.read(st,q.obj,q.off,n,ty if ty.k!='int' or ty.w==8*n else None),n)
            s.write(st,q.obj,q.off,n,v)
    def write(s,st,obj,off,n,val):
        c=st.wr(obj) if obj.id in st.mem else None
        if c is None:
            g=s.globmem.get(obj.id)
            if g is None: raise Unsupported('write to unknown object')
            st.mem[obj.id]=g.copy(st.tok); c=st.mem[obj.id]
        if isinstance(off,int):
            L=c.layers[-1]
            if not isinstance(L,Cells):
                L=Cells(); c.layers=c.layers+[L]
            d=L.d
            o=d.get(off)
            if o is not None and o[0]==n: d[off]=(n,val); return
            for x in range(off-15,off+n):
                if x in d:
                    m,v=d[x]
                    if x+m<=off: continue
                    if x>=off and x+m<=off+n: del d[x]; continue
                    bs=bytes_of(v,m); del d[x]
                    for i,b in enumerate(bs):
                        if not(off<=x+i<off+n): d[x+i]=(1,b)
            d[off]=(n,val)
        else:
            c.layers=c.layers+[SymW(off,n,val),Cells()]
    def addrange(s,st,obj,lo,n,fn,desc=''):
        c=st.wr(obj); c.layers=c.layers+[Range(lo,n,fn,desc),Cells()]
    def memcpy(s,st,dst,src,n):
        if isinstance(n,int) and n==0: return
        for cd,d in s.resolve(st,dst):
            for cs,q in s.resolve(st,src):
                if cd is not True or cs is not True:
                    if not(s.must(st,And(cd,cs))): raise Unsupported('memcpy through conditional pointers')
                s.chk(st,True,q,n,'memcpy read'); s.chk(st,True,d,n,'memcpy write')
                if d.obj is None or q.obj is None: raise DeadPath()
                if d.obj.const: s.oblige(st,FALSE,'memcpy to read-only %s'%d.obj.name,'memsafe')
                s.copy(st,d.obj,d.off,q.obj,q.off,n)
    def copy(s,st,dobj,doff,sobj,soff_,n):
        sc=s.content(st,sobj)
        if isinstance(n,int) and n<=8192 and isinstance(doff,int) and isinstance(soff_,int):
            # cell-preserving copy
            items=[]; i=0
            top=sc.layers[-1] if isinstance(sc.layers[-1],Cells) else None
            while i<n:
                cell=top.d.get(soff_+i) if top else None
                if cell is not None and i+cell[0]<=n: items.append((i,cell[0],cell[1])); i+=cell[0]
                else:
                    if n-i>=8 and not (top and any((soff_+i+k) in top.d for k in range(8))) and not(top and any((soff_+i-k) in top.d and top.d[soff_+i-k][0]>k for k in range(1,16))):
                        v=s._read(st,sc,len(sc.layers)-1,soff_+i,8,sobj)
                        items.append((i,8,v)); i+=8
                    else:
                        v=s._read(st,sc,len(sc.layers)-1,soff_+i,1,sobj); items.append((i,1,v)); i+=1
            for i,m,v in items: s.write(st,dobj,doff+i,m,v)
            return
        snap=Content(sc.base,[Cells(dict(l.d)) if isinstance(l,Cells) else l for l in sc.layers])
        so=soff_
        def fn(ctx,st2,rel,m,snap=snap,so=so,sobj=sobj):
            return ctx._read(st2,snap,len(snap.layers)-1,off_add(so,rel),m,sobj)
        s.addrange(st,dobj,doff,n,fn,'copy of %s'%sobj.name)
    def memset(s,st,p,byte,n):
        if isinstance(n,int) and n==0: return
        for c,d in s.resolve(st,p):
            if c is not True and not s.must(st,c): raise Unsupported('memset cond ptr')
            s.chk(st,True,d,n,'memset')
            if d.obj is None: raise DeadPath()
            if isinstance(byte,z3.BitVecRef) and byte.size()>8: byte=norm(z3.simplify(z3.Extract(7,0,byte)))
            if isinstance(byte,int): byte&=255
            if isinstance(n,int) and n<=256 and isinstance(d.off,int):
                i=0
                while i<n:
                    m=8 if n-i>=8 else 1
                    v=from_bytes([byte]*m); s.write(st,d.obj,d.off+i,m,v); i+=m
            else:
                def fn(ctx,st2,rel,m,b=byte): return from_bytes([b]*m)
                s.addrange(st,d.obj,d.off,n,fn,'memset')
    def padd(s,p,off):
        if isinstance(off,int) and off==0: return p
        p=as_ptr(p)
        if isinstance(p,PtrIte): return PtrIte([(c,s.padd(q,off)) for c,q in p.alts])
        if isinstance(p,FnPtr): raise Unsupported('fnptr arith')
        if isinstance(off,int) and isinstance(p.off,int):
            q=(p.off+off)&MASK[64]; return Ptr(p.obj,q-(1<<64) if q>>63 else q)
        return Ptr(p.obj,off_add(p.off,off))
    def free(s,st,p,what='delete'):
        for c,q in s.resolve(st,p):
            if isinstance(q,Ptr) and q.obj is None: continue
            if q.obj.id in st.freed:
                s.fail_access(st,c,'double free of %s'%q.obj.name); continue
            if q.obj.kind not in('heap',):
                s.fail_access(st,c,'%s of non-heap %s'%(what,q.obj.name)); continue
            if not(isinstance(q.off,int) and q.off in(0,)) : s.fail_access(st,c,'%s of interior pointer of %s'%(what,q.obj.name)); continue
            if c is True or s.must(st,c): st.freed=st.freed|{q.obj.id}
            else: raise Unsupported('conditional free')
    # ---------------- globals / constants
    def gobj(s,mod,name):
        key=name if name in s.prog.globals and not name.startswith('.') else (id(mod),name)
        m,g=mod,mod.globals.get(name)
        if g is None or not llvmir.GlobInit(g):
            if name in s.prog.globals: m,g=s.prog.globals[name]
        k=(id(m),name)
        o=s.globmem.get(k)
        if o is not None: return o
        if g is None:
            o=Obj('@'+name,None,'global'); s.globmem[k]=o; s.globmem[o.id]=Content(z3.Array(fname('ext_'+name),z3.BitVecSort(64),z3.BitVecSort(8))); return o
        init=llvmir.GlobInit(g); ty=m.ty(llvmir.GlobTy(g))
        const=bool(llvmir.GlobIsConst(g))
        o=Obj('@'+name,ty.size,'global',const)
        s.globmem[k]=o; o.meta['extern']=not init
        if init and (const or getattr(s,'globals_initial',True)):
            C=Content(None); s.globmem[o.id]=C
            s.init(C,0,m,m.const(init))
        else:
            s.globmem[o.id]=Content(z3.Array(fname('ext_'+name),z3.BitVecSort(64),z3.BitVecSort(8)))
        return o
    def init(s,C,off,m,c):
        _,t,k,pl=c
        d=C.layers[0].d
        if k=='zero' or k=='null' and t.k=='ptr':
            if t.size<=64:
                if t.k in('struct','array'):
                    els=zip(t.els,t.offs) if t.k=='struct' else [(t.el,i*t.el.size) for i in range(t.n)]
                    for e,o in els: s.init(C,off+o,m,('c',e,'zero',None))
                else: d[off]=(t.store,NULL if t.k=='ptr' else 0 if t.k=='int' else 0.0)
            else:
                if C.base is None: C.base='zero'
        elif k=='bytes':
            w=t.el.size
            for i in range(0,len(pl),w): d[off+i]=(w,int.from_bytes(pl[i:i+w],'little'))
        elif k=='agg':
            offs=t.offs if t.k=='struct' else [i*t.el.size for i in range(t.n)]
            for e,o in zip(pl,offs): s.init(C,off+o,m,e)
        elif k=='undef': pass
        else:
            v=s.cval(m,c); 
            d[off]=(t.store,int(v) if isinstance(v,bool) else v)
    def cval(s,m,c):
        _,t,k,pl=c
        if k=='int': return bool(pl) if t.w==1 else pl
        if k=='fp': return f32r(pl) if t.k=='float' else pl
        if k=='null': return NULL
        if k=='undef': return UNDEF
        if k=='zero':
            if t.k=='int': return 0
            if t.k in('float','double'): return 0.0
            if t.k=='ptr': return NULL
            return [s.cval(m,('c',e,'zero',None)) for e in (t.els if t.k=='struct' else [t.el]*t.n)]
        if k=='agg': return [s.cval(m,e) for e in pl]
        if k=='sym':
            if pl in m.funcs or (pl in s.prog.funcs): return FnPtr(pl)
            if pl in m.aliases: return FnPtr(m.aliases[pl])
            return Ptr(s.gobj(m,pl),0)
        if k=='expr':
            op,ops,ex=pl
            vs=[s.cval(m,o) for o in ops]
            if op=='getelementptr': return s.gep(None,m,ex['src'],vs[0],vs[1:],[m.opty(o) for o in ops[1:]])
            if op in('bitcast','addrspacecast'): return vs[0]
            if op=='ptrtoint': return vs[0]
            if op=='inttoptr': return as_ptr(vs[0])
            if op in('add','sub') and all(isinstance(v,int) for v in vs): return (vs[0]+vs[1] if op=='add' else vs[0]-vs[1])&MASK[t.w]
            raise Unsupported('const expr '+op)
        if k=='bytes': return [b for b in pl]
        if k in('md','asm'): return UNDEF
        raise Unsupported('const '+str(k))
    def gep(s,st,m,src,base,idx,tys):
        off=0; t=src
        for i,(v,ty) in enumerate(zip(idx,tys)):
            if i==0: sz=t.size
            elif t.k=='struct':
                off=off_add(off,t.offs[v]); t=t.els[v]; continue
            else: t=t.el; sz=t.size
            if isinstance(v,bool): v=int(v)
            if isinstance(v,int):
                off=off_add(off,signed(v,ty.w)*sz)
            else:
                e=bv(v,ty.w)
                if ty.w<64: e=z3.SignExt(64-ty.w,e)
                off=off_add(off,e*sz if sz!=1 else e)
        if isinstance(off,int) and off<0 : pass
        return s.padd(base,off)
def subst(e,k,j):
    if isinstance(e,z3.ExprRef):
        r=z3.substitute(e,(k,j))
        f=FPBITS.get(e.get_id()) if isinstance(e,z3.FPRef) else None
        if f is not None:
            return bits_fp(norm(z3.simplify(z3.substitute(f[1],(k,j)))),4 if e.sort()==F32 else 8)
        if isinstance(r,z3.BitVecRef): return norm(z3.simplify(r)) if True else r
        return r
    if isinstance(e,Ptr): return Ptr(e.obj,subst(e.off,k,j))
    return e
class DeadPath(Exception): pass
