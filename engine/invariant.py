"""Loops by inductive invariant.  The invariant is the conjunction of a family of candidate facts about the loop-carried
scalars (registers and memory cells), weakened until it is inductive (Houdini) ; plus invariants supplied by the unit.
Everything the loop may change is havocked, the invariant is assumed, the body is executed once: the obligations of that
one arbitrary iteration stand for every iteration.  A ranking function is searched among the carried scalars."""
import os, z3
from sym import *
import sym
from loops import mk_fresh, diff_mem, sym_of, equal_vals, finish, free_consts, val_consts
from exec import DeadPath
class Var:
    """a loop-carried scalar"""
    def __init__(s,key,n,entry,x): s.key=key; s.n=n; s.entry=entry; s.x=x
def havoc_value(vm,st,v,n,tag,shapes,key):
    """arbitrary value of the shape of v; adds what has to be live to the state"""
    if isinstance(v,Ptr) and v.obj is None or isinstance(v,PtrIte) or isinstance(v,Ptr) and key in shapes:
        sh=shapes.get(key)
        if sh is None: raise Unsupported('loop-carried null pointer')
        name,size,meta=sh
        o=vm.new(st,name,size,'heap',z3.Array(fname(name),z3.BitVecSort(64),z3.BitVecSort(8)))
        o.meta.update(meta); o.meta['havoc']=True
        b=z3.Bool(fname('isnull'))
        return PtrIte([(b,NULL),(z3.Not(b),Ptr(o,0))])
    if isinstance(v,Ptr) and v.obj.meta.get('stride') and isinstance(v.off,int) and v.off%v.obj.meta['stride']==0:
        # positions of elements: an arbitrary one (that the next one is a position of an element is an obligation)
        return Ptr(v.obj,z3.simplify(fresh(tag,64)*v.obj.meta['stride']))
    return mk_fresh(vm,v,n,tag)
def as_w(x,w=64,signed=False):
    if isinstance(x,Ptr): x=x.off
    if isinstance(x,int): return z3.BitVecVal(x,w)
    if isinstance(x,z3.BitVecRef):
        if x.size()==w: return x
        if x.size()<w: return z3.SignExt(w-x.size(),x) if signed else z3.ZeroExt(w-x.size(),x)
    return None
def summarise_inv(vm,fr,h,st0,regs0,stop):
    from vm import LoopCtx, loops_of
    f=fr.f; body=loops_of(f).loops[h]
    phis=[I for I in f.blocks[h].insts if I.op=='phi' and I.id in regs0]
    where=vm.here()
    carried={}   # (oid,off) -> (n,entry)
    arrays=set() # objects written at symbolic places: their content is havocked
    shapes={}    # key -> (name,size,meta) of the object a null-or-object pointer may point to
    def one_run(cands,mute,collect=None):
        st=st0.fork(); regs=dict(regs0); X={}
        for oid in arrays:
            c=st.mem[oid]
            for l in c.layers:
                if isinstance(l,Cells) and any(isptr(v) for n,v in l.d.values()): raise Unsupported('object with pointers written at a symbolic place')
            st.mem[oid]=Content(z3.Array(fname('havoc'),z3.BitVecSort(64),z3.BitVecSort(8)),None,st.tok)
        for I in phis:
            v=regs0[I.id]
            x=UNDEF if v is UNDEF else havoc_value(vm,st,v,I.ty.store,'phi',shapes,('r',I.id))
            regs[I.id]=x; X[('r',I.id)]=Var(('r',I.id),I.ty.store,v,x)
        for (oid,o),(n,v) in carried.items():
            if oid in arrays: continue
            c=st.mem[oid]
            if c.tok is not st.tok: c=c.copy(st.tok); st.mem[oid]=c
            if v is UNDEF: c.layers[-1].d[o]=(n,UNDEF); continue # a pointer that is not set before the loop: not to be read before it is set in the iteration
            x=havoc_value(vm,st,v,n,'mem',shapes,('m',oid,o))
            c.layers[-1].d[o]=(n,x); X[('m',oid,o)]=Var(('m',oid,o),n,v,x)
        ex=[]
        for c in cands:
            g=c(X,lambda k:X[k].x)
            if g is not None: st.assume(zbool(g))
        for nm,fn in (vm.unit_inv(fr,h,X,st) if getattr(vm,'unit_inv',None) else []):
            st.assume(zbool(fn({k:v.x for k,v in X.items()},st)))
        base=st.fork(); baseregs=dict(regs)
        lc=LoopCtx(h,body); fr.lc.append(lc); o0=len(fr.outs); act=fr.active; fr.active=[]; inst=fr.inst; fr.inst={}
        if mute: vm.mute+=1
        try: vm.run(fr,h,None,st,regs,len(f.blocks),0,True)
        finally:
            fr.lc.pop(); fr.active=act; fr.inst=inst
            if mute: vm.mute-=1
        outs=fr.outs[o0:]
        if mute: del fr.outs[o0:]
        return base,baseregs,X,lc,outs
    def nextval(st,regs,key,v):
        if key[0]=='r': return regs.get(key[1])
        c=st.mem[key[1]]; r=vm._read(st,c,len(c.layers)-1,key[2],v.n,None)
        if isinstance(v.entry,(float,z3.FPRef)) and not isinstance(r,(float,z3.FPRef)): r=bits_fp(r,v.n)
        return r
    # ---- what does the body change?
    for it in range(12):
        base,bregs,X,lc,outs=one_run([],True)
        new=False
        for st,regs,prev in lc.back:
            for I in phis:
                k=('r',I.id)
                if note_shape(regs.get(I.id),regs0[I.id],k,shapes): new=True
            for oid,d in diff_mem(base,st).items():
                if d is None:
                    if oid not in arrays: arrays.add(oid); new=True
                    continue
                ch,extra=d
                if any(not isinstance(l,Cells) for l in extra):
                    if oid not in arrays: arrays.add(oid); new=True
                    continue
                if oid in arrays: continue
                for o,(n,v) in ch.items():
                    if (oid,o) not in carried:
                        c0=st0.mem[oid]; v0=vm._read(st0,c0,len(c0.layers)-1,o,n,None)
                        if v0 is UNDEF: v0=fresh('uninit',8*n) if not isptr(v) and v is not UNDEF else UNDEF
                        if isptr(v) and v0 is not UNDEF and not isptr(v0): v0=as_ptr(v0)
                        if isinstance(v,(float,z3.FPRef)) and not isinstance(v0,(float,z3.FPRef)): v0=bits_fp(v0,n)
                        carried[(oid,o)]=(n,v0); new=True
                    if carried[(oid,o)][1] is not UNDEF and note_shape(v,carried[(oid,o)][1],('m',oid,o),shapes): new=True
        if not new: break
    else: raise Unsupported('loop-carried state does not stabilise')
    if not lc.back: raise Unsupported('loop without a way back')
    # ---- candidate facts
    ints=[v for v in X.values() if isinstance(v.x,z3.BitVecRef) or (isinstance(v.x,Ptr) and v.x.obj is not None)]
    ints=[v for v in ints if isinstance(v.entry,(int,z3.BitVecRef)) and not isinstance(v.entry,bool) or isinstance(v.entry,Ptr)]
    cands=[]
    def add(name,fn,strong=False):
        fn.name=name; fn.strong=strong; cands.append(fn)
    def val(v): return v.off if isinstance(v,Ptr) else v
    for v in ints:
        w=64 if isinstance(v.x,Ptr) else v.x.size(); e=bv(val(v.entry),w); k=v.key
        add('unchanged',lambda X,g,k=k,e=e: val(g(k))==e)
        for nm,op in(('<=u',z3.ULE),('>=u',z3.UGE),('<=s',lambda a,b:a<=b),('>=s',lambda a,b:a>=b)):
            add(nm+' entry',lambda X,g,k=k,e=e,op=op: op(bv(val(g(k)),w_of(val(g(k)),e)),e))
    for i,a in enumerate(ints):
        for b in ints[i+1:]:
            for sg in(0,1):
                ea,eb=as_w(a.entry if not isinstance(a.entry,int) else bv(a.entry,sz(a)),64,sg),as_w(b.entry if not isinstance(b.entry,int) else bv(b.entry,sz(b)),64,sg)
                if ea is None or eb is None: continue
                add('sum',lambda X,g,a=a.key,b=b.key,ea=ea,eb=eb,sg=sg,sa=sz(a),sb=sz(b): as_w(bvw(val(g(a)),sa),64,sg)+as_w(bvw(val(g(b)),sb),64,sg)==ea+eb)
                add('difference',lambda X,g,a=a.key,b=b.key,ea=ea,eb=eb,sg=sg,sa=sz(a),sb=sz(b): as_w(bvw(val(g(a)),sa),64,sg)-as_w(bvw(val(g(b)),sb),64,sg)==ea-eb)
                if sz(a)==64 and sz(b)==64: break
    if getattr(vm,'more_cands',None): vm.more_cands(vm,fr,h,X,ints,lambda n,f,x=None: add(n,f,True))
    # bounds met in the conditions under which the body is entered again
    names={str(sym_of(v.x)):v for v in ints}
    for st,regs,prev in lc.back:
        for c in st.pc[len(base.pc):]:
            for k,rel,B in bounds_in(c,names,set(names)|{str(sym_of(v.x)) for v in X.values() if isinstance(sym_of(v.x),z3.ExprRef)}):
                add('%s bound'%rel,lambda X,g,k=k,B=B,rel=rel,w=B.size(): {'<=s':lambda a:a<=B,'<=u':lambda a:z3.ULE(a,B),'>=s':lambda a:a>=B,'>=u':lambda a:z3.UGE(a,B)}[rel](bvw(val(g(k)),w)))
    # ---- Houdini
    entry_vals={v.key:v.entry for v in X.values()}
    live=[]
    for c in cands:
        try: g=c(X,lambda k:entry_vals[k])
        except Exception: continue
        if vm.must(st0,zbool(g)): live.append(c)
    for rnd in range(12):
        base,bregs,X,lc,outs=one_run(live,True)
        drop=set()
        for st,regs,prev in lc.back:
            def nx(k): return nextval(st,regs,k,X[k])
            for c in live:
                if c in drop: continue
                try: g=zbool(c(X,nx))
                except Exception: drop.add(c); continue
                if not vm.must(st,g) and not(c.strong and decide(st,g)): drop.add(c)
        if not drop: break
        live=[c for c in live if c not in drop]
    else: raise Unsupported('no inductive invariant found')
    if os.environ.get('DEBUG_INV'):
        print('INV at',where,'carried',[(k,str(v.x)[:30],str(v.entry)[:60]) for k,v in X.items()],'shapes',list(shapes),'arrays',arrays)
        for c in cands: print('   ','kept' if c in live else 'lost',c.name)
    # ---- the iteration that counts
    if getattr(vm,'entry_hook',None): vm.entry_hook(vm,fr,h,st0)
    for c in live: vm.oblige(st0,zbool(c(X,lambda k:entry_vals[k])),'loop invariant (%s) on entry at %s'%(c.name,where),'inv')
    uinv=vm.unit_inv(fr,h,X,st0) if getattr(vm,'unit_inv',None) else []
    for nm,fn in uinv: vm.oblige(st0,zbool(fn(entry_vals,st0)),'loop invariant "%s" on entry at %s'%(nm,where),'inv')
    base,bregs,X,lc,outs=one_run(live,False)
    uinv=vm.unit_inv(fr,h,X,base) if getattr(vm,'unit_inv',None) else []
    rank=None
    meas=[]
    for v in X.values():
        if isinstance(sym_of(v.x),z3.BitVecRef) and not isinstance(v.x,PtrIte):
            w=sym_of(v.x).size()
            meas.append(('decreases',v,lambda a,b:z3.ULT(b,a))); meas.append(('increases',v,lambda a,b:z3.UGT(b,a)))
            meas.append(('decreases',v,lambda a,b:b<a)); meas.append(('increases',v,lambda a,b:b>a))
    for kind,v,op in meas:
        # strictly monotone over a finite type: it cannot go on forever
        if all(vm.must(st,op(bvw(val(v.x),sz(v)),bvw(val(nextval(st,regs,v.key,v)),sz(v)))) for st,regs,prev in lc.back): rank=(kind,v,op); break
    for st,regs,prev in lc.back:
        def nx(k): return nextval(st,regs,k,X[k])
        for c in live: vm.oblige(st,zbool(c(X,nx)),'loop invariant (%s) preserved at %s'%(c.name,where),'inv')
        for nm,fn in uinv: vm.oblige(st,zbool(fn({k:nx(k) for k in X},st)),'loop invariant "%s" preserved at %s'%(nm,where),'inv')
        if getattr(vm,'check_term',True):
            if rank: vm.oblige(st,rank[2](bvw(val(rank[1].x),sz(rank[1])),bvw(val(nx(rank[1].key)),sz(rank[1]))),'every iteration of the loop at %s makes progress (%s)'%(where,rank[0]),'term')
            else: vm.oblige(st,FALSE,'every iteration of the loop at %s makes progress'%where,'term')
        for v in X.values():
            if isinstance(v.x,Ptr) and v.x.obj is not None and v.x.obj.meta.get('stride') and isinstance(v.entry,Ptr):
                d=v.x.obj.meta['stride']; q=nx(v.key); good=isinstance(q,Ptr) and q.obj is v.x.obj
                if good:
                    from poly import to_poly
                    good=all(c%d==0 for c in to_poly(z3.simplify(bv(q.off,64))).values())
                if not good: vm.oblige(st,z3.URem(bv(q.off,64),z3.BitVecVal(d,64))==0 if isinstance(q,Ptr) and q.obj is v.x.obj else FALSE,'the pointer carried round the loop at %s is the position of an element'%where,'inv')
        for key,(nm,size,meta) in shapes.items():
            p=nx(key)
            alts=p.alts if isinstance(p,PtrIte) else [(True,p)]
            for c,q in alts:
                good=isinstance(q,Ptr) and (q.obj is None and q.off==0 or q.obj is not None and q.obj.id not in st.freed and q.off==0 and same(q.obj.size,size))
                if not good and vm.feasible(st,zbool(c)): vm.oblige(st,Not(c) if c is not True else FALSE,'carried pointer is null or a live %s at %s'%(nm,where),'inv')
        if getattr(vm,'back_hook',None): vm.back_hook(vm,fr,h,base,X,st,nx)
    vm.loopsummaries+=1
    exits=lc.exits
    return finish(vm,fr,h,stop,body,exits,outs)
_names={}
def names_of(e):
    r=_names.get(e.get_id())
    if r is None: r=(e,frozenset(free_consts(e))); _names[e.get_id()]=r
    return r[1]
def slice_prove(pc,g,ms=1500):
    """with only the assumptions about the goal's own unknowns (fewer assumptions: sound)"""
    V=names_of(g); few=[p for p in pc if names_of(p)<=V]
    if len(few)==len(pc): return False
    S=z3.Solver(); S.set('timeout',ms); S.add(*few); S.add(z3.Not(g)); return S.check()==z3.unsat
def decide(st,g):
    import time; t0=time.time()
    if slice_prove(st.pc,g): return True
    S=z3.Solver(); S.set('timeout',25000); S.add(*st.pc); S.add(z3.Not(g)); r=S.check()==z3.unsat
    if os.environ.get("DEBUG_INV"): print("DEC",r,time.time()-t0)
    return r
def sz(v): return 64 if isinstance(v.x,Ptr) else v.x.size()
def bvw(v,w): return bv(v,w)
def w_of(v,e): return e.size()
def note_shape(v,entry,key,shapes):
    """does the carried pointer need the null-or-object form?"""
    if not isptr(v) or isinstance(v,FnPtr): return False
    ps=[q for c,q in v.alts] if isinstance(v,PtrIte) else [v]
    es=[q for c,q in entry.alts] if isinstance(entry,PtrIte) else [entry] if isptr(entry) else []
    objs={q.obj.id:q.obj for q in ps if isinstance(q,Ptr) and q.obj is not None}
    e=[q.obj for q in es if isinstance(q,Ptr)]
    if key in shapes: return False
    if all(o is not None for o in e) and len({o.id for o in e}|set(objs))==1: return False
    if not objs: return False
    o=list(objs.values())[-1]
    if o.kind!='heap': raise Unsupported('carried pointer to several objects')
    shapes[key]=(o.name.split('#')[0],o.size,{k:v for k,v in o.meta.items() if k!='havoc'}); return True
def bounds_in(c,names,allnames):
    """conditions x<B, B>x .. with x a carried scalar and B invariant"""
    neg=False
    while z3.is_not(c): c=c.arg(0); neg=not neg
    if z3.is_and(c) and not neg:
        for q in c.children(): yield from bounds_in(q,names,allnames)
        return
    if not z3.is_app(c) or c.num_args()!=2: return
    k=c.decl().kind(); a,b=c.children()
    OPS={z3.Z3_OP_SLT:('s','<'),z3.Z3_OP_SLEQ:('s','<'),z3.Z3_OP_SGT:('s','>'),z3.Z3_OP_SGEQ:('s','>'),z3.Z3_OP_ULT:('u','<'),z3.Z3_OP_ULEQ:('u','<'),z3.Z3_OP_UGT:('u','>'),z3.Z3_OP_UGEQ:('u','>')}
    if k==z3.Z3_OP_EQ or k==z3.Z3_OP_DISTINCT:
        for x,B in((a,b),(b,a)):
            if isinstance(x,z3.BitVecRef) and str(x) in names and not(set(free_consts(B))&allnames):
                for r in('<=s','<=u','>=s','>=u'): yield names[str(x)].key,r,B
        return
    if k not in OPS: return
    s,d=OPS[k]
    if neg: d='>' if d=='<' else '<'
    for x,B,dd in((a,b,d),(b,a,'>' if d=='<' else '<')):
        if not isinstance(x,z3.BitVecRef): continue
        core=x
        while z3.is_app(core) and core.decl().kind() in(z3.Z3_OP_SIGN_EXT,z3.Z3_OP_ZERO_EXT): core=core.arg(0)
        if str(x) in names and not(set(free_consts(B))&allnames): yield names[str(x)].key,('<=' if dd=='<' else '>=')+s,B
        elif str(core) in names and not(set(free_consts(B))&allnames):
            w=core.size(); Bt=z3.simplify(z3.Extract(w-1,0,B)); yield names[str(core)].key,('<=' if dd=='<' else '>=')+s,Bt
