"""Inductive summary of a loop with a symbolic trip count.

The loop body is executed once from an arbitrary iteration.  Loop-carried registers and memory scalars get closed
forms when their update is `x + d` with d loop-invariant (x(k) = x0 + d*k); everything else is havocked (optionally
constrained by an invariant that is proved on entry and preserved).  Array writes become a MapR layer "for all j<k".
The closed forms and the write map are re-derived from the final run and must coincide (inductive step)."""
import hashlib, reals
import z3, re
from sym import *
import sym
from exec import DeadPath
import llvmir
from poly import to_poly, from_poly

def free_consts(e,acc=None,seen=None):
    if acc is None: acc={}; seen=set()
    st=[e]
    while st:
        x=st.pop()
        if not isinstance(x,z3.ExprRef): continue
        i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind()==z3.Z3_OP_UNINTERPRETED: acc[x.decl().name()]=x
        st.extend(x.children())
    return acc
def val_consts(v):
    if isinstance(v,z3.ExprRef):
        r=free_consts(v)
        if isinstance(v,z3.FPRef):
            f=FPBITS.get(v.get_id())
            if f: r=dict(r); r.update(free_consts(f[1]))
        return r
    if isinstance(v,Ptr): return val_consts(v.off)
    if isinstance(v,PtrIte):
        r={}
        for c,p in v.alts: r.update(val_consts(c)); r.update(val_consts(p))
        return r
    if isinstance(v,(list,tuple)):
        r={}
        for x in v: r.update(val_consts(x))
        return r
    return {}
def mk_fresh(vm,v,n,tag):
    """fresh unconstrained value shaped like v (n bytes)"""
    if isinstance(v,(bool,z3.BoolRef)): return z3.Bool(fname(tag))
    if isinstance(v,(int,z3.BitVecRef)):
        return fresh(tag,v.size() if isinstance(v,z3.BitVecRef) else n*8)
    if isinstance(v,(float,z3.FPRef)): 
        return z3.FP(fname(tag),fsort(n))
    if isinstance(v,Ptr):
        if v.obj is None: raise Unsupported('loop-carried null/invalid pointer')
        return Ptr(v.obj,fresh(tag,64))
    raise Unsupported('loop-carried value %r'%(v,))
def multi_subst(v,pairs):
    if isinstance(v,z3.FPRef):
        f=FPBITS.get(v.get_id())
        if f is not None:
            return bits_fp(norm(z3.simplify(z3.substitute(f[1],*pairs))),4 if v.sort()==F32 else 8)
        return z3.substitute(v,*pairs)
    if isinstance(v,z3.BitVecRef): return norm(z3.simplify(z3.substitute(v,*pairs)))
    if isinstance(v,z3.BoolRef): return simp(z3.substitute(v,*pairs))
    if isinstance(v,Ptr): return Ptr(v.obj,multi_subst(v.off,pairs))
    if isinstance(v,PtrIte): return PtrIte([(zbool(multi_subst(c,pairs)),multi_subst(p,pairs)) for c,p in v.alts])
    if isinstance(v,(list,tuple)): return [multi_subst(x,pairs) for x in v]
    return v
def sym_of(v):
    return v.off if isinstance(v,Ptr) else v

def diff_mem(st0,st1):
    """differences of objects existing in st0: {oid: (cells{off:(n,val)}, extra_layers)}"""
    out={}
    for i,c0 in st0.mem.items():
        c1=st1.mem.get(i)
        if c1 is c0 or c1 is None: continue
        l0,l1=c0.layers,c1.layers
        if c1.base is not c0.base and not(isinstance(c0.base,str) and c0.base==c1.base): out[i]=None; continue
        k=len(l0)-1
        if len(l1)<len(l0) or any(l0[x] is not l1[x] for x in range(k)): out[i]=None; continue
        d0,d1=l0[k].d,l1[k].d
        ch={o:v for o,v in d1.items() if o not in d0 or not (d0[o] is v or (d0[o][0]==v[0] and same(d0[o][1],v[1])))}
        gone=[o for o in d0 if o not in d1]
        if gone: out[i]=None; continue
        if ch or len(l1)>len(l0): out[i]=(ch,l1[k+1:])
    return out

def summarise(vm,fr,h,st0,regs0,stop):
    from vm import LoopCtx, loops_of
    f=fr.f; lp=loops_of(f); body=lp.loops[h]
    phis=[I for I in f.blocks[h].insts if I.op=='phi' and I.id in regs0]
    phin={I.id:I.ty.store for I in phis}
    start_n=sym._fc[0]
    where=vm.here()
    objs={}   # oid -> Obj (needed to write cells)
    def find_obj(oid):
        for o in vm_objs(vm,st0,regs0):
            if o.id==oid: return o
        return None
    carried_mem={}  # (oid,off) -> (n, entryval)
    maps={}         # oid -> MapR description (off,n,val) lists in terms of k
    names={}
    def one_run(phivals,memvals,extra,maplayers,mute):
        st=st0.fork(); regs=dict(regs0)
        regs.update(phivals)
        for (oid,off),v in memvals.items():
            n=carried_mem[(oid,off)][0]
            c=st.mem[oid]
            if c.tok is not st.tok: c=c.copy(st.tok); st.mem[oid]=c
            c.layers[-1].d[off]=(n,v)
        for oid,ml in maplayers.items():
            c=st.mem[oid]
            if c.tok is not st.tok: c=c.copy(st.tok); st.mem[oid]=c
            c.layers=c.layers+[ml,Cells()]
        for e in extra: st.assume(e)
        base=st.fork()
        lc=LoopCtx(h,body); fr.lc.append(lc); outs0=len(fr.outs); act=fr.active; fr.active=[]; inst=fr.inst; fr.inst={}
        if mute: vm.mute+=1
        try: vm.run(fr,h,None,st,regs,len(f.blocks),0,True)
        finally:
            fr.lc.pop(); fr.active=act; fr.inst=inst
            if mute: vm.mute-=1
        outs=fr.outs[outs0:]; 
        if mute: del fr.outs[outs0:]
        backs=vm.merge(lc.back_states(),lambda k:vm.regsize(fr,k)) if False else merge_back(vm,fr,lc)
        return base,backs,lc.exits,outs
    # --- stabilise the set of loop-carried memory scalars
    for it in range(8):
        pv={}; ren={}
        for I in phis:
            try: pv[I.id]=mk_fresh(vm,regs0[I.id],phin[I.id],'phi')
            except Unsupported:
                if isinstance(regs0[I.id],Undef): pv[I.id]=UNDEF
                else: raise
        mv={k:mk_fresh(vm,v,n,'mem') for k,(n,v) in carried_mem.items()}
        base,backs,exits,outs=one_run(pv,mv,[],{},True)
        if not backs: 
            # the body never comes back: not really a loop from here
            break
        new=False; arr={}
        for st,regs,prev in backs:
            d=diff_mem(base,st)
            for oid,x in d.items():
                if x is None: raise Unsupported('loop modifies object in an unsupported way')
                ch,extra=x
                arrw=any(not isinstance(l,Cells) for l in extra)
                if not arrw:
                    for o,(n,v) in ch.items():
                        if (oid,o) not in carried_mem:
                            c0=st0.mem[oid]
                            v0=vm._read(st0,c0,len(c0.layers)-1,o,n,None)
                            if v0 is UNDEF:
                                # written before read in every iteration? give it a fresh start value of the same shape
                                v0=mk_fresh(vm,v,n,'uninit')
                            if isinstance(v,(float,z3.FPRef)) and not isinstance(v0,(float,z3.FPRef)): v0=bits_fp(v0,n)
                            if isptr(v) and not isptr(v0): v0=as_ptr(v0)
                            carried_mem[(oid,o)]=(n,v0); new=True
                else:
                    arr[oid]=(ch,extra)
        if not new: break
    else: raise Unsupported('loop-carried memory does not stabilise')
    if not backs:
        # execute it plainly once
        return finish(vm,fr,h,stop,body,*( (lambda b: (b[2],b[3]))(one_run({i:regs0[i] for i in pv},{k:v for k,(n,v) in carried_mem.items()},[],{},False)) ))
    # --- closed forms
    k=z3.BitVec(fname('k'),64)
    X={}; entry={}; nxt={}
    for I in phis: X[('r',I.id)]=pv[I.id]; entry[('r',I.id)]=regs0[I.id]
    for kk,(n,v0) in carried_mem.items(): X[('m',)+kk]=mv[kk]; entry[('m',)+kk]=v0
    def carried_next(st,regs,prev):
        r={}
        for I in phis: r[('r',I.id)]=regs.get(('nx',I.id))
        for (oid,o),(n,v0) in carried_mem.items():
            c=st.mem[oid]; 
            v=vm._read(st,c,len(c.layers)-1,o,n,None)
            if isinstance(v0,(float,z3.FPRef)) and not isinstance(v,(float,z3.FPRef)): v=bits_fp(v,n)
            r[('m',oid,o)]=v
        return r
    nexts=[carried_next(*b) for b in backs]
    cnames={str(sym_of(x)) for x in X.values() if isinstance(sym_of(x),z3.ExprRef)}
    def local(nm):
        m=re.search(r'!(\d+)$',nm); return bool(m) and int(m.group(1))>start_n
    closed={}   # key -> value at iteration k
    delta={}
    for key,x in X.items():
        xs=sym_of(x)
        if x is UNDEF: closed[key]=UNDEF; continue
        ds=[]
        for nx in nexts:
            nv=nx[key]
            if isinstance(x,Ptr):
                nv=as_ptr(nv)
                if not(isinstance(nv,Ptr) and nv.obj is x.obj): raise Unsupported('loop-carried pointer changes object')
                nv=nv.off; w=64
            if isinstance(xs,z3.BitVecRef):
                d=norm(z3.simplify(bv(nv,xs.size())-xs))
                if isinstance(d,z3.BitVecRef):
                    cs=free_consts(d)
                    if any(c in cnames or local(c) for c in cs): ds.append(None); continue
                ds.append(d)
            else:
                ds.append(0 if isinstance(nv,z3.ExprRef) and nv.eq(xs) else None)
        if all(d is not None and same(d,ds[0]) for d in ds):
            d=ds[0]; delta[key]=d
            x0=entry[key]
            if isinstance(x0,Ptr): x0=x0.off
            if isinstance(d,int) and d==0: closed[key]=entry[key]; continue
            w=xs.size(); kk=k if w==64 else z3.Extract(w-1,0,k)
            val=norm(z3.simplify(bv(x0,w)+bv(d,w)*kk))
            closed[key]=Ptr(x.obj,val) if isinstance(x,Ptr) else val
    # functions of closed variables (value set from the previous iteration)
    havoc={}
    for key,x in X.items():
        if key not in closed: havoc[key]=x
    inv=getattr(vm,'loop_invariant',None)
    pairs=[(sym_of(X[key]),zz(closed[key],X[key])) for key in closed if closed[key] is not UNDEF and isinstance(sym_of(X[key]),z3.ExprRef)]
    hset={str(sym_of(x)) for x in havoc.values()}
    vals=lambda: {key:closed.get(key,X[key]) for key in X}
    def pvmv():
        p={I.id:closed.get(('r',I.id),X[('r',I.id)]) for I in phis}
        m={kk:closed.get(('m',)+kk,X[('m',)+kk]) for kk in carried_mem}
        return p,m
    # --- continue condition C(k) and bounds on k
    def back_conds(backs,base,pr):
        cs=[]
        for st,regs,prev in backs:
            c=[q for q in st.pc[len(base.pc):]]
            c=[z3.substitute(q,*pr) if pr else q for q in c]
            c=[q for q in c if not any(local(nm) and nm!=k.decl().name() for nm in free_consts(q))]
            cs.append(And(*c))
        return Or(*cs)
    Ck=zbool(back_conds(backs,base,pairs))
    facts=[]
    ws=[sym_of(X[key]).size() for key in delta if isinstance(sym_of(X[key]),z3.BitVecRef) and isinstance(delta[key],int) and delta[key]%2==1]
    w=min(ws) if ws else 63
    facts.append(z3.ULE(k,z3.BitVecVal(1<<min(w,62),64)))
    facts.append(z3.Implies(k!=0,z3.And(z3.substitute(Ck,(k,z3.BitVecVal(0,64))),z3.substitute(Ck,(k,k-1)))))
    # narrow counters do not wrap: inductive facts tying them to the iteration number
    for key in list(closed):
        d=delta.get(key); xs=sym_of(X[key])
        if not(isinstance(xs,z3.BitVecRef) and isinstance(d,int)) or xs.size()>=64 or xs.size()<8: continue
        w=xs.size(); sd=signed(d,w)
        if sd==0 or abs(sd)>64: continue
        ck=closed[key]
        if isinstance(ck,Ptr): continue
        ck=bv(ck,w); k0=z3.BitVecVal(0,64)
        for ext in(z3.SignExt,z3.ZeroExt):
            F=ext(64-w,ck)==z3.substitute(ext(64-w,ck),(k,k0))+z3.BitVecVal(sd,64)*k
            S=vm.solver(3000); S.add(*st0.pc); S.add(*facts); S.add(F,Ck,z3.Not(z3.substitute(F,(k,k+1))))
            if S.check()==z3.unsat: facts.append(F); break
    # strided 64-bit counters do not wrap: an inductive bound on the number of iterations
    if any(isinstance(delta.get(key),int) and delta[key] not in(0,1,(1<<64)-1) and (isinstance(closed[key],Ptr) or (isinstance(sym_of(X[key]),z3.BitVecRef) and sym_of(X[key]).size()==64)) for key in closed):
        for e in(32,40,48,56,60,61):
            F=z3.ULE(k,z3.BitVecVal(1<<e,64)); S=vm.solver(1000); S.add(*st0.pc); S.add(*facts); S.add(F,Ck,z3.Not(z3.substitute(F,(k,k+1))))
            if S.check()==z3.unsat: facts.append(F); break
    # the trip count itself bounds the iteration number (loops that end at an equality)
    if not z3.is_true(Ck):
        try: cands=trip_candidates([Ck],k)
        except Exception: cands=[]
        for c in cands[:4]:
            if z3.is_bv_value(c): continue
            F=z3.ULE(k,c)
            if any(F.eq(x) for x in facts): continue
            S=vm.solver(500); S.add(*facts); S.add(F,Ck,z3.Not(z3.substitute(F,(k,k+1))))
            if S.check()==z3.unsat: facts.append(F); break
    invs=[]
    if inv is not None:
        invs=inv(vm,fr,h,dict(X=X,entry=entry,closed=closed,havoc=havoc,k=k,st0=st0,delta=delta)) or []
        # invs: list of (name, fn(values dict)->Bool)
        for nm,fn in invs: vm.oblige(st0,fn(entry),'loop invariant "%s" holds on entry (%s)'%(nm,where),'inv')
        facts+= [zbool(fn(vals())) for nm,fn in invs]
    # --- array writes as functions of k
    def arr_writes(backs,base,pr):
        res={}
        if len(backs)!=1:
            anyarr=any(any(any(not isinstance(l,Cells) for l in x[1]) for x in diff_mem(base,b[0]).values() if x) for b in backs)
            if anyarr: raise Unsupported('array writes on unmergeable paths')
            return res
        st=backs[0][0]
        for oid,x in diff_mem(base,st).items():
            if x is None: raise Unsupported('loop modifies object in an unsupported way')
            ch,extra=x
            ws=[]
            for o,(n,v) in ch.items():
                if (oid,o) in carried_mem: continue
                ws.append((o,n,v))
            for l in extra:
                if isinstance(l,SymW): ws.append((l.off,l.n,l.val))
                elif isinstance(l,Cells): ws+=[(o,n,v) for o,(n,v) in l.d.items()]
                elif isinstance(l,Range): ws.append(('range',l.lo,l.n,l.fn))
                elif isinstance(l,MapR): ws.append(('map',l))
            if ws: res[oid]=ws
        return res
    aw=arr_writes(backs,base,pairs)
    ml={}
    stk=st0.fork()
    for fct in facts: stk.assume(fct)
    stk.assume(Ck)
    for oid,ws in aw.items():
        ml[oid]=mk_map(vm,stk,k,ws,pairs,local,hset)
    p,m=pvmv()
    # --- final run: obligations and exits are collected here
    n_before=sym._fc[0]
    base2,backs2,exits2,outs2=one_run(p,m,facts,ml,False)
    # inductive step checks
    for (st,regs,prev) in backs2:
        nx=carried_next(st,regs,prev)
        for key in closed:
            if closed[key] is UNDEF: continue
            want=multi_subst(closed[key],[(k,k+1)])
            got=nx[key]
            if not equal_vals(vm,st,got,want): raise Unsupported('closed form of loop-carried value is not inductive')
        for nm,fn in invs:
            vm.oblige(st,fn({**nx}),'loop invariant "%s" preserved (%s)'%(nm,where),'inv')
    aw2=arr_writes(backs2,base2,[])
    if set(aw2)-set(aw): raise Unsupported('array writes appear late')
    for oid,ws in aw2.items():
        L2=mk_map(vm,backs2[0][0],k,ws,[],local,hset)
        L1=ml[oid]
        if len(L1.writes)!=len(L2.writes): raise Unsupported('array writes are not stable')
        for a,b in zip(L1.writes,L2.writes):
            if not(a[2]==b[2] and equal_vals(vm,backs2[0][0],a[1],b[1]) and equal_vals(vm,backs2[0][0],a[3],b[3],a[2])): raise Unsupported('array writes depend on earlier iterations')
    vm.loopsummaries+=1
    return finish(vm,fr,h,stop,body,[solve_exit(vm,e,k,st0) for e in exits2],outs2)

def finish(vm,fr,h,stop,body,exits,outs):
    """exits: (st,regs,prev,target)"""
    f=fr.f; EX=len(f.blocks)
    # join point: first post-dominator of h outside the loop
    j=h
    while j!=EX and j in body: j=f.ipdom[j]
    arr=[]
    tgt={}
    for st,regs,prev,t in exits: tgt.setdefault((prev,t),[]).append((st,regs))
    for (prev,t),l in tgt.items():
        for st,regs in vm.merge(l,lambda k:vm.regsize(fr,k)):
            arr+=vm.run(fr,t,prev,st,regs,j)
    if j==EX: return []
    arr=vm.merge(arr,lambda k:vm.regsize(fr,k))
    if j==stop: return arr
    res=[]
    from vm import loops_of
    lp=loops_of(f)
    for st,regs in arr:
        if fr.lc and (j==fr.lc[-1].h):
            # cannot happen: run() diverts transitions to the header of an active summary
            res+=vm.run(fr,j,None,st,regs,stop,0,True)
        elif j in lp.loops and h not in lp.loops[j]:
            res+=vm.run_loop(fr,j,None,st,regs,stop,phidone=True)
        else: res+=vm.run(fr,j,None,st,regs,stop,0,True)
    return res
def trip_candidates(conds,k):
    """terms the number of iterations may be equal to: where a comparison of the exit condition changes its truth value"""
    from poly import to_poly,from_poly
    out=[]; seen=set(); todo=list(conds)
    def add(e):
        e=z3.simplify(e)
        if k.decl().name() not in free_consts(e) and not any(e.eq(x) for x in out): out.append(e)
    while todo:
        c=todo.pop()
        if c.get_id() in seen or len(out)>12: continue
        seen.add(c.get_id())
        if z3.is_and(c) or z3.is_or(c) or z3.is_not(c) or c.decl().kind()==z3.Z3_OP_IMPLIES: todo+=c.children(); continue
        if c.num_args()!=2 or not isinstance(c.arg(0),z3.BitVecRef): continue
        a,b=c.arg(0),c.arg(1)
        if a.size()==64:
            d=to_poly(z3.simplify(a-b)); ks=to_poly(k)
            (km,_),=ks.items(); s=d.pop(km,0)
            if not s or any(km[0] in m for m in d): continue
            s=signed(s,64); sg=-1 if s>0 else 1; s=abs(s)
            r={m:(sg*signed(x,64)) for m,x in d.items()}; c0=r.pop((),0)
            if any(x%s for x in r.values()): continue
            q={m:(x//s)%(1<<64) for m,x in r.items()}
            for dlt in(0,1,-1):
                p=dict(q); p[()]=(c0//s+dlt)%(1<<64); e=from_poly(p); add(e)
                if not z3.is_bv_value(e): add(z3.If(e<0,z3.BitVecVal(0,64),e))
        elif a.size()==32:
            for x,y in((a,b),(b,a)):
                if k.decl().name() not in free_consts(x) or k.decl().name() in free_consts(y): continue
                e=z3.simplify(x-z3.Extract(31,0,k))
                if k.decl().name() in free_consts(e): continue
                for dlt in(0,1):
                    n=z3.simplify(y-e+dlt); add(z3.SignExt(32,n)); add(z3.If(n<0,z3.BitVecVal(0,64),z3.SignExt(32,n)))
    return out
def solve_exit(vm,e,k,st0):
    """replace the iteration count by its closed form on an exit where it is determined"""
    st,regs,prev,t=e; n0=len(st0.pc)
    try: cands=trip_candidates([c for c in st.pc[n0:]],k)
    except Exception: return e
    for c in cands[:8]:
        S=vm.solver(700); S.add(*st.pc); S.add(k!=c)
        if S.check()!=z3.unsat: continue
        pr=[(k,c)]; st=st.fork()
        st.pc=tuple(st.pc[:n0])+tuple(x for x in (z3.simplify(z3.substitute(q,*pr)) for q in st.pc[n0:]) if not z3.is_true(x))+(k==c,)
        regs={r:multi_subst(v,pr) for r,v in regs.items()}
        for oid,c1 in list(st.mem.items()):
            if st0.mem.get(oid) is c1: continue
            ls=[]
            for l in c1.layers:
                if isinstance(l,Cells): l=Cells({o:(n,multi_subst(v,pr)) for o,(n,v) in l.d.items()})
                elif isinstance(l,SymW): l=SymW(multi_subst(l.off,pr),l.n,multi_subst(l.val,pr))
                elif isinstance(l,MapR): l=MapR(l.k,multi_subst(l.cnt,pr) if isinstance(l.cnt,z3.ExprRef) else l.cnt,l.stride,l.writes if l.k.eq(k) else [(g,multi_subst(o,pr),n,multi_subst(v,pr)) for g,o,n,v in l.writes],l.lo if l.k.eq(k) else multi_subst(l.lo,pr),l.ext)
                ls.append(l)
            st.mem[oid]=Content(c1.base,ls,st.tok)
        return (st,regs,prev,t)
    return e
def zz(v,x):
    if isinstance(v,Ptr): v=v.off
    xs=sym_of(x)
    if isinstance(xs,z3.BitVecRef): return bv(v,xs.size())
    if isinstance(xs,z3.BoolRef): return zbool(v)
    if isinstance(xs,z3.FPRef): return fpz(v,4 if xs.sort()==F32 else 8)
    return v
def merge_back(vm,fr,lc):
    arr=[]
    for st,regs,prev in lc.back:
        r=dict(regs)
        # phi values of the next iteration were already written in regs by phis(); keep them under 'nx'
        for I in fr.f.blocks[lc.h].insts:
            if I.op!='phi': break
            if I.id in regs: r[('nx',I.id)]=regs[I.id]
        arr.append((st,r))
    def ns(k):
        if isinstance(k,tuple): k=k[1]
        return vm.regsize(fr,k)
    m=vm.merge(arr,ns)
    return [(st,r,None) for st,r in m]
def canon(e,memo):
    """text of a floating-point term that does not depend on the order of sums and products"""
    r=memo.get(e.get_id())
    if r is not None: return r[0]
    if isinstance(e,z3.BitVecRef) and not reals.has_fp(e): x=z3.simplify(e).sexpr()
    elif not z3.is_app(e) or not e.num_args(): x=e.sexpr()
    else:
        kd=e.decl().kind(); ch=e.children()
        if kd==z3.Z3_OP_ITE and z3.is_not(ch[0]): ch=[ch[0].arg(0),ch[2],ch[1]]
        c=[canon(x,memo) for x in ch]; nm=e.decl().name()
        if kd in(z3.Z3_OP_FPA_ADD,z3.Z3_OP_FPA_MUL): c[1:]=sorted(c[1:])
        if kd==z3.Z3_OP_FPA_SUB: nm='fp.add'; c[1:]=sorted([c[1],'(fp.neg %s)'%c[2]])
        if kd in(z3.Z3_OP_AND,z3.Z3_OP_OR): c.sort()
        x='(%s %s %s)'%(nm,e.sort(),' '.join(c))
        if len(x)>200: x=hashlib.sha1(x.encode()).hexdigest()
    memo[e.get_id()]=(x,e); return x
def alike(vm,st,a,b):
    m=vm.__dict__.setdefault('_canon',{}); return canon(a,m)==canon(b,m)
def equal_vals(vm,st,a,b,n=8):
    if same(a,b): return True
    if isinstance(a,Ptr) or isinstance(b,Ptr):
        a,b=as_ptr(a),as_ptr(b)
        if not(isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj is b.obj): return False
        a,b=a.off,b.off; n=8
    if isinstance(a,(float,z3.FPRef)) or isinstance(b,(float,z3.FPRef)):
        if isinstance(a,float) and isinstance(b,float): return a==b or (a!=a and b!=b)
        A,B=fpz(a,n),fpz(b,n)
        return A.eq(B) or alike(vm,st,A,B) or vm.must(st,A==B)
    if isinstance(a,(bool,z3.BoolRef)): return vm.must(st,zbool(a)==zbool(b))
    w=a.size() if isinstance(a,z3.BitVecRef) else b.size() if isinstance(b,z3.BitVecRef) else 8*n
    e=z3.simplify(bv(a,w)==bv(b,w))
    return z3.is_true(e) or vm.must(st,e)
def widen(vm,st,off,k):
    """rewrite sign/zero extended 32-bit index arithmetic to 64-bit polynomials where provably equal"""
    if not isinstance(off,z3.BitVecRef): return off
    def is_ext(e):
        kd=e.decl().kind()
        if kd in(z3.Z3_OP_SIGN_EXT,z3.Z3_OP_ZERO_EXT) and e.size()==64: return e.arg(0),kd==z3.Z3_OP_SIGN_EXT
        if kd==z3.Z3_OP_CONCAT and e.num_args()==2 and e.size()==64 and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long()==0: return e.arg(1),False
        if kd==z3.Z3_OP_CONCAT and e.size()==64 and e.num_args()>2:
            t=e.arg(e.num_args()-1); w=t.size(); s=z3.simplify(z3.Extract(w-1,w-1,t))
            if w+e.num_args()-1==64 and all(e.arg(j).eq(s) for j in range(e.num_args()-1)): return t,True
        return None
    done={}
    def rec(e):
        i=e.get_id()
        if i in done: return done[i]
        x=is_ext(e)
        r=None
        if x is not None:
            t,sg=x
            c=lift(t,sg)
            if c is not None:
                c=z3.simplify(c)
                if not c.eq(e) and vm.must(st,e==c): r=c
        if r is None:
            ch=[rec(c) if isinstance(c,z3.BitVecRef) and c.size()==64 else c for c in e.children()]
            if ch and any(a is not b for a,b in zip(ch,e.children())):
                kd=e.decl().kind()
                if kd==z3.Z3_OP_BADD:
                    r=ch[0]
                    for c in ch[1:]: r=r+c
                elif kd==z3.Z3_OP_BMUL:
                    r=ch[0]
                    for c in ch[1:]: r=r*c
                else: r=e.decl()(*ch)
            else: r=e
        done[i]=r
        return r
    def lift(t,sg):
        w=t.size(); kd=t.decl().kind()
        if z3.is_bv_value(t):
            v=t.as_long(); v=signed(v,w) if sg else v; return z3.BitVecVal(v,64)
        if kd==z3.Z3_OP_EXTRACT and t.arg(0).size()==64 and t.params()[1]==0: return t.arg(0)
        if kd in(z3.Z3_OP_BADD,z3.Z3_OP_BMUL):
            cs=[lift(c,sg) for c in t.children()]
            if any(c is None for c in cs): return None
            r=cs[0]
            for c in cs[1:]: r=(r+c) if kd==z3.Z3_OP_BADD else r*c
            return r
        return z3.SignExt(64-w,t) if sg else z3.ZeroExt(64-w,t)
    r=z3.simplify(rec(z3.simplify(off)))
    # also try a second pass for nested
    return norm(r)
def mk_map(vm,st,k,ws,pairs,local,hset):
    writes=[]
    sub=(lambda v: multi_subst(v,pairs)) if pairs else (lambda v:v)
    flat=[]
    for w in ws:
        if isinstance(w[0],str) and w[0]=='range': raise Unsupported('range write inside summarised loop')
        if isinstance(w[0],str) and w[0]=='map':
            raise Unsupported('nested summarised writes')
        flat.append(w)
    kn=k.decl().name()
    st2=st
    for off,n,v in flat:
        o=sub(off); o=widen(vm,st2,o,k) if isinstance(o,z3.ExprRef) else o
        vv=sub(v)
        for nm in list(val_consts(o))+list(val_consts(vv)):
            if nm!=kn and local(nm): raise Unsupported('array write depends on an iteration-local unknown %s'%nm)
            if nm in hset: raise Unsupported('array write depends on unknown loop-carried value')
        writes.append([True,o,n,vv])
    # stride
    strides=[]
    for g,o,n,v in writes:
        if isinstance(o,int): strides.append(0); continue
        p=to_poly(z3.simplify(z3.substitute(o,(k,k+1))-o)); 
        d=norm(from_poly(p))
        if isinstance(d,z3.BitVecRef) and kn in free_consts(d): raise Unsupported('non-affine write offset')
        strides.append(d)
    if not all(same(d,strides[0]) for d in strides): raise Unsupported('different strides in one object')
    s=strides[0]
    if isinstance(s,int) and s==0: raise Unsupported('loop-invariant write offset')
    if isinstance(s,int) and s>>63:
        # negative stride: number the iterations from the last one (they do not overlap, so the order is immaterial)
        kk=z3.BitVec(k.decl().name()+'~r',64); pr=[(k,k-1-kk)]
        writes=[[g,z3.simplify(z3.substitute(o,*pr)) if isinstance(o,z3.ExprRef) else o,n,multi_subst(v,pr)] for g,o,n,v in writes]
        s=(-s)&MASK[64]; nk=kk
    else: nk=k
    o0=[norm(z3.simplify(z3.substitute(o,(nk,z3.BitVecVal(0,64))))) if isinstance(o,z3.ExprRef) else o for g,o,n,v in writes]
    rel=[norm(z3.simplify(bv(o,64)-bv(o0[0],64))) for o in o0]
    if not all(isinstance(r,int) for r in rel): raise Unsupported('writes at unrelated offsets')
    rel=[signed(r,64) for r in rel]
    mn=min(rel); ext=max(r+w[2] for r,w in zip(rel,writes))-mn
    lo=norm(z3.simplify(bv(o0[0],64)+(mn&MASK[64])))
    if isinstance(s,int):
        if ext>s: raise Unsupported('iterations overlap')
    return MapR(nk,k,s,[tuple(w) for w in writes],lo,ext)
def vm_objs(vm,st,regs): return []
