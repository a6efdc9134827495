import time
from exec import *
import exec as _ex
from poly import to_poly, from_poly

class LoopSym(Exception):
    def __init__(s,fr,h): s.fr=fr; s.h=h
class LoopCtx:
    def __init__(s,h,body): s.h=h; s.body=body; s.back=[]; s.exits=[]
_loops={}
def loops_of(f):
    l=_loops.get(id(f))
    if l is None: l=_loops[id(f)]=(Loops(f),f)
    return l[0]

def same_content(A,B):
    if A.base is not B.base and not(isinstance(A.base,str) and A.base==B.base): return False
    L=[l for l in A.layers if not(isinstance(l,Cells) and not l.d)]; M=[l for l in B.layers if not(isinstance(l,Cells) and not l.d)]
    if len(L)!=len(M): return False
    for x,y in zip(L,M):
        if x is y: continue
        if not(isinstance(x,Cells) and isinstance(y,Cells)) or x.d.keys()!=y.d.keys(): return False
        for k in x.d:
            u,v=x.d[k],y.d[k]
            if u[0]!=v[0] or not(u[1] is v[1] or same(u[1],v[1])): return False
    return True
def core_of(x):
    while z3.is_app(x) and x.decl().kind() in(z3.Z3_OP_SIGN_EXT,z3.Z3_OP_ZERO_EXT): x=x.arg(0)
    if z3.is_app(x) and x.decl().kind()==z3.Z3_OP_CONCAT and x.num_args()==2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long()==0: x=x.arg(1)
    return x
def remainder(A,B):
    """a-(a/c)*c is a%c (for every c: the solvers' division by zero agrees)"""
    if B.decl().kind()!=z3.Z3_OP_BMUL or B.num_args()!=2: return None
    for q,c in((B.arg(0),B.arg(1)),(B.arg(1),B.arg(0))):
        k=q.decl().kind()
        if k in(z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I,z3.Z3_OP_BSDIV,z3.Z3_OP_BSDIV_I) and q.arg(0).eq(A) and q.arg(1).eq(c):
            return z3.URem(A,c) if k in(z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I) else z3.SRem(A,c)
    return None
class VM(Ctx):
    small_unroll=0 # iterations tried before a loop whose condition is not constant is taken to be unbounded
    merge_mem=True # join states that differ in memory (otherwise they stay separate paths)
    # ------------------------------------------------------------ operands
    def val(s,fr,regs,o):
        if o[0]=='l':
            v=regs.get(o[1])
            if v is None: raise Unsupported('use of undefined register %s'%llvmir.vstr(o[1]))
            return v
        return s.cval(fr.f.mod,o)
    # ------------------------------------------------------------ functions
    def call_fn(s,f,args,st):
        """execute a function body; returns list of Outcome"""
        if len(s.cur)>200: raise Unsupported('recursion too deep: '+f.name)
        fr=Frame(); fr.f=f; fr.outs=[]; fr.depth=len(s.cur); fr.stack=[]; 
        f.blocks
        regs={}
        for p,a in zip(f.params,args): regs[p[1]]=a
        nm=s.prog.dem.get(f.name,f.name).split('(')[0]
        s.cur.append(nm)
        savedline=getattr(s,'line',0)
        frx=FrameX(fr)
        try:
            s.run(frx,0,None,st,regs,len(f.blocks))
        finally: 
            s.cur.pop(); s.line=savedline
        rets=[o for o in fr.outs if o.kind=='ret']; oth=[o for o in fr.outs if o.kind!='ret']
        if len(rets)>1:
            n=f.retty.store if f.retty.k!='void' else 0
            arr=[(o.st,{'r':o.val}) for o in rets]
            merged=s.merge(arr,lambda k:n)
            rets=[Outcome('ret',m[0],m[1].get('r')) for m in merged]
        for o in rets+oth: 
            for ob in frx.allocas:
                o.st.freed=o.st.freed|{ob.id}
        return rets+oth
    def check_budget(s):
        s.stats['ins']+=1
        if s.stats['ins']&1023==0:
            if s.stats['ins']>s.max_ins: raise Unsupported('instruction budget exhausted')
            if s.deadline and time.time()>s.deadline: raise Unsupported('time budget exhausted')
    def run(s,fr,bi,prev,st,regs,stop,ii=0,phidone=False):
        f=fr.f; B=f.blocks; EX=len(B); ip=f.ipdom
        lp=loops_of(f)
        while True:
            if ii==0:
                # transition prev->bi
                if fr.lc and not phidone:
                    lc=fr.lc[-1]
                    if bi==lc.h:
                        lc.back.append((st,s.phis(fr,bi,prev,regs),prev)); return []
                    if bi not in lc.body:
                        lc.exits.append((st,regs,prev,bi)); return []
                if not phidone and prev is not None and bi in lp.loops and prev in lp.loops[bi]:
                    inst=fr.inst.get(bi)
                    if inst is not None and inst.get('t0'):
                        inst['it']=inst.get('it',0)+1
                        if inst['it']>=100 and time.time()-inst['t0']>s.slow_loop: inst['slow']=True; raise LoopSym(fr,bi)
                if not phidone:
                    if bi in lp.loops and prev not in lp.loops[bi]:
                        if bi==stop:
                            return [(st,s.phis(fr,bi,prev,regs))]
                        return s.run_loop(fr,bi,prev,st,regs,stop)
                    regs=s.phis(fr,bi,prev,regs)
                    if bi==stop: return [(st,regs)]
                phidone=False
            blk=B[bi].insts
            n=len(blk)
            nxt=None
            while ii<n:
                I=blk[ii]; op=I.op
                if op=='phi': ii+=1; continue
                s.check_budget()
                s.line=I.line or getattr(s,'line',0)
                if op=='br' or op=='switch':
                    if op=='br' and not I.ops: nxt=[(True,I.extra['succ'][0])]; break
                    nxt=s.branches(fr,I,st,regs,bi); break
                if op=='ret':
                    fr.outs.append(Outcome('ret',st,s.val(fr,regs,I.ops[0]) if I.ops else None)); return []
                if op=='unreachable':
                    return []
                if op=='resume':
                    v=s.val(fr,regs,I.ops[0]); fr.outs.append(Outcome('throw',st,v[2] if len(v)>2 else v)); return []
                if op in('call','invoke'):
                    r=s.do_call(fr,I,st,regs)
                    norm_=[o for o in r if o.kind=='ret']; thr=[o for o in r if o.kind=='throw']; 
                    for o in r:
                        if o.kind not in('ret','throw'): fr.outs.append(o)
                    if op=='call':
                        for o in thr: fr.outs.append(o)
                        if not norm_: return []
                        if len(norm_)==1:
                            st=norm_[0].st; 
                            if I.ty.k!='void': regs[I.id]=norm_[0].val
                            ii+=1; continue
                        return s.fork(fr,bi,[(o.st,s.setr(regs,I,o.val),bi,ii+1) for o in norm_],stop)
                    else:
                        nd,ud=I.extra['succ']; cont=[]
                        for o in norm_: cont.append((o.st,s.setr(regs,I,o.val),nd,-1))
                        for o in thr:
                            rr=dict(regs); rr['exc']=o.val; cont.append((o.st,rr,ud,-1))
                        if not cont: return []
                        if len(cont)==1:
                            st,regs,t,_=cont[0]; prev=bi; bi=t; ii=0; nxt='go'; break
                        return s.fork(fr,bi,cont,stop)
                try:
                    s.step(fr,I,st,regs)
                except DeadPath:
                    return []
                ii+=1
            if nxt=='go': continue
            if nxt is None: raise Unsupported('block without terminator')
            if len(nxt)==0: return []
            if len(nxt)==1:
                c,t=nxt[0]
                if c is not True: st.assume(c)
                prev=bi; bi=t; ii=0; continue
            # symbolic branch
            h=None
            for hh in fr.active[::-1]:
                body=lp.loops[hh]
                if bi in body and any(t not in body for c,t in nxt):
                    h=hh; break
            if h is not None and not (fr.lc and fr.lc[-1].h==h):
                inst=fr.inst.get(h)
                if inst is not None and not inst['symok']:
                    conc=inst['conc']-{bi}
                    if not conc and inst.get('n',0)>=s.small_unroll: raise LoopSym(fr,h)
                if inst is not None:
                    inst['n']=inst.get('n',0)+1
                    if inst.get('t0') and inst['n']>=100 and time.time()-inst['t0']>s.slow_loop: inst['slow']=True; raise LoopSym(fr,h)
                    if inst['n']>s.max_unroll or (inst['symok'] and inst['n']>s.sym_unroll): raise Unsupported('loop not bounded within %d symbolic iterations in %s'%(inst['n'],s.cur[-1]))
            cont=[]
            for c,t in nxt:
                st2=st.fork(); st2.assume(c); cont.append((st2,dict(regs),t,-1))
            return s.fork(fr,bi,cont,stop)
    def setr(s,regs,I,v):
        r=dict(regs)
        if I.ty.k!='void': r[I.id]=v
        return r
    def fork(s,fr,bi,conts,stop):
        """conts: (st,regs,target,ii): ii>=0 continue inside block target, -1 enter block target from bi"""
        EX=len(fr.f.blocks); j=fr.f.ipdom[bi]
        if stop!=EX and j==EX: j=EX
        arr=[]
        for st,regs,t,ii in conts:
            if ii>=0: arr+=s.run(fr,t,None,st,regs,j,ii)
            else: arr+=s.run(fr,t,bi,st,regs,j)
        if j==EX: return []
        lp=loops_of(fr.f)
        # a join at a loop header reached from outside: run the loop from there (phis have been applied)
        arr=s.merge(arr,lambda k:s.regsize(fr,k))
        if len(arr)>s.max_paths: raise PathLimit('too many paths')
        if j==stop: return arr
        res=[]
        for st,regs in arr:
            if j in lp.loops and bi not in lp.loops[j] and not(fr.lc and fr.lc[-1].h==j):
                res+=s.run_loop(fr,j,None,st,regs,stop,phidone=True)
            else:
                res+=s.run(fr,j,None,st,regs,stop,0,True)
        return res
    def regsize(s,fr,k):
        if k=='exc': return 8
        t=fr.f.mod.ty(llvmir.TypeOf(k)); return t.store if t.k!='struct' else 0
    def phis(s,fr,bi,prev,regs):
        blk=fr.f.blocks[bi].insts; up={}
        for I in blk:
            if I.op!='phi': break
            o=I.extra['inc'].get(prev)
            if o is None: raise Unsupported('phi without incoming')
            if o[0]=='l' and o[1] not in regs: continue
            up[I.id]=s.val(fr,regs,o)
        if up:
            regs=dict(regs) if False else regs
            regs.update(up)
        return regs
    def branches(s,fr,I,st,regs,bi):
        v=s.val(fr,regs,I.ops[0])
        f=fr.f; lp=loops_of(f)
        if I.op=='br':
            a,b=I.extra['succ']
            if isinstance(v,z3.BoolRef): v=simp(v)
            if v is UNDEF: v=z3.Bool(fname('undefbr'))
            if isinstance(v,(bool,int)):
                t=a if v else b
                for h in fr.active:
                    body=lp.loops[h]
                    if (a in body)!=(b in body):
                        ins=fr.inst.get(h)
                        if ins is not None:
                            # block index of this instruction
                            ins['conc'].add(bi)
                return [(True,t)]
            out=[]
            if a==b: return [(True,a)]
            lt=s.light(st); fa=s.feasible(lt,v); fb=s.feasible(lt,z3.Not(v)) if fa else True
            if fa: out.append((v,a))
            if fb: out.append((Not(v),b))
            if len(out)==1:
                for h in fr.active:
                    body=lp.loops[h]
                    if (a in body)!=(b in body):
                        ins=fr.inst.get(h)
                        if ins is not None: ins['conc'].add(bi)
            return out
        succ=I.extra['succ']; cases=I.extra['cases']
        w=fr.f.mod.opty(I.ops[0]).w
        if isinstance(v,int):
            for c,t in zip(cases,succ[1:]):
                if c[3]==v: return [(True,t)]
            return [(True,succ[0])]
        if v is UNDEF: v=fresh('undefsw',w)
        v=bv(v,w)
        bytgt={}
        for c,t in zip(cases,succ[1:]): bytgt.setdefault(t,[]).append(v==c[3])
        out=[]
        dn=And(*[v!=c[3] for c in cases])
        if succ[0] in bytgt:
            bytgt[succ[0]].append(dn)
        else:
            if s.feasible(st,dn): out.append((dn,succ[0]))
        for t,cs in bytgt.items():
            c=Or(*cs)
            if s.feasible(st,c): out.append((c,t))
        return out
    # ------------------------------------------------------------ merging
    def merge(s,arr,nsize):
        if len(arr)<=1: return arr
        out=[]
        for a in arr:
            for i,b in enumerate(out):
                m=s.merge2(b,a,nsize)
                if m is not None: out[i]=m; break
            else: out.append(a)
        return out
    def merge2(s,A,Bb,nsize):
        sa,ra=A; sb,rb=Bb
        if sa.exc!=sb.exc: return None
        p=0
        while p<len(sa.pc) and p<len(sb.pc) and (sa.pc[p] is sb.pc[p] or sa.pc[p].eq(sb.pc[p])): p+=1
        ta,tb=sa.pc[p:],sb.pc[p:]
        ca=And(*ta); cb=And(*tb)
        if ta and tb and Not(ta[0]) is not None:
            x=Not(ta[0]); 
            sel=ta[0] if (isinstance(x,z3.BoolRef) and x.eq(tb[0])) else ca
            compl=isinstance(x,z3.BoolRef) and x.eq(tb[0])
        else: sel=ca; compl=False
        if sel is True: sel=TRUE
        free=False
        if not compl and not s.disjoint(ta,tb):
            # both may happen for the same inputs (a choice left open by a contract): an unconstrained selector stands for the choice
            sel=z3.Bool(fname('path')); free=True
        # freed
        if sa.freed!=sb.freed:
            da=sa.freed-sb.freed; db=sb.freed-sa.freed
            if any(o in sb.mem for o in da) or any(o in sa.mem for o in db): 
                if not getattr(s,'merge_freed',False) and not all(getattr(s,'stackids',{}).get(o) for o in da|db): return None
        # ghost
        g={}
        for k in set(sa.ghost)|set(sb.ghost):
            if k not in sa.ghost or k not in sb.ghost:
                g[k]=sa.ghost.get(k,sb.ghost.get(k)); continue
            x,y=sa.ghost[k],sb.ghost[k]
            if x is y or same(x,y): g[k]=x; continue
            if hasattr(x,'merge'):
                m=x.merge(sel,y)
                if m is None: return None
                g[k]=m; continue
            if isinstance(x,(int,bool,z3.BitVecRef,z3.BoolRef,float,z3.FPRef,Ptr,PtrIte)): g[k]=vite(sel,x,y); continue
            try:
                if x==y: g[k]=x; continue
            except Exception: pass
            return None
        mem=dict(sa.mem)
        for i,cb_ in sb.mem.items():
            ca_=mem.get(i)
            if ca_ is None: mem[i]=cb_; continue
            if ca_ is cb_: continue
            if not s.merge_mem and not same_content(ca_,cb_): return None
            m=s.merge_content(sel,sa,ca_,sb,cb_,i)
            if m is None: return None
            mem[i]=m
        regs={}
        for k in ra:
            if k in rb:
                x,y=ra[k],rb[k]
                if x is y: regs[k]=x; continue
                try: regs[k]=vite(sel,x,y,nsize(k)) if not same(x,y) else x
                except Exception: pass
            else: regs[k]=ra[k]
        for k in rb:
            if k not in ra: regs[k]=rb[k]
        st=State(); st.mem=mem; st.ghost=g; st.freed=sa.freed|sb.freed; st.exc=sa.exc
        if compl:
            oa=And(*ta[1:]); ob=And(*tb[1:])
            if oa is True and ob is True: st.pc=sa.pc[:p]
            else: st.pc=sa.pc[:p]+(z3.If(sel,zbool(oa),zbool(ob)),)
        elif free: 
            g=z3.simplify(z3.If(sel,zbool(ca),zbool(cb))); st.pc=sa.pc[:p]+(() if z3.is_true(g) else (g,))
        else:
            o=Or(ca,cb)
            st.pc=sa.pc[:p]+((o,) if isinstance(o,z3.BoolRef) else ())
        return st,regs
    def disjoint(s,ta,tb):
        if not ta or not tb: return False
        A={x.get_id() for x in ta}; B={x.get_id() for x in tb}
        for X,Y in((A,tb),(B,ta)):
            for y in Y:
                if z3.is_not(y) and y.arg(0).get_id() in X: return True
        def eqs(t): return {x.arg(0).get_id():x.arg(1).as_long() for x in t if z3.is_eq(x) and z3.is_bv_value(x.arg(1))}
        e,f=eqs(ta),eqs(tb)
        if any(k in f and f[k]!=v for k,v in e.items()): return True
        key=(tuple(x.get_id() for x in ta),tuple(x.get_id() for x in tb)); r=s.disj_cache.get(key)
        if r is None:
            t=time.time(); S=s.solver(300); ab=s.abs_fp if getattr(s,'abstract_fp',False) else (lambda x:x); S.add(*map(ab,ta)); S.add(*map(ab,tb)); r=(S.check()==z3.unsat,ta,tb); s.disj_cache[key]=r; s.stats['feas']+=1; s.stats['feas_t']+=time.time()-t
        return r[0]
    def merge_content(s,sel,sa,A,sb,B,oid):
        if A.base is not B.base and not (A.base==B.base if isinstance(A.base,str) else False): 
            return s.merge_generic(sel,A,B)
        la,lb=A.layers,B.layers
        # common prefix of layers
        k=0
        while k<len(la)-1 and k<len(lb)-1 and la[k] is lb[k]: k+=1
        ea,eb=la[k:],lb[k:]
        if isinstance(ea[0],Cells) and isinstance(eb[0],Cells) and len(ea)==1 and len(eb)==1:
            da,db=ea[0].d,eb[0].d
            d={}
            for o in set(da)|set(db):
                x,y=da.get(o),db.get(o)
                if x is y or (x and y and x[0]==y[0] and same(x[1],y[1])): d[o]=x; continue
                if x and y and x[0]==y[0]:
                    d[o]=(x[0],vite(sel,x[1],y[1],x[0])); continue
                if x and y: return s.merge_generic(sel,A,B)
                # present on one side only
                n=(x or y)[0]
                try:
                    xv=x[1] if x else s._read(sa,A,len(la)-1,o,n,None)
                    yv=y[1] if y else s._read(sb,B,len(lb)-1,o,n,None)
                    # overlap on the other side?
                    oth=db if x else da
                    for q in range(o-15,o+n):
                        if q in oth and q+oth[q][0]>o: raise Unsupported('overlap')
                    d[o]=(n,vite(sel,xv,yv,n))
                except Unsupported: return s.merge_generic(sel,A,B)
            return Content(A.base,la[:k]+[Cells(d)],None)
        # extra symbolic writes on either side
        try:
            if not(isinstance(ea[0],Cells) and isinstance(eb[0],Cells)): return s.merge_generic(sel,A,B)
            if any(isinstance(l,(Range,MapR)) for l in ea[1:]+eb[1:]): return s.merge_generic(sel,A,B)
            base=s.merge_content(sel,sa,Content(A.base,la[:k]+[ea[0]]),sb,Content(B.base,lb[:k]+[eb[0]]),oid)
            wa=s.writes_of(ea[1:]); wb=s.writes_of(eb[1:])
            cur=Content(base.base,list(base.layers))
            if len(wa)==len(wb) and all(x[1]==y[1] and same(x[0],y[0]) for x,y in zip(wa,wb)):
                for x,y in zip(wa,wb):
                    s.rawwrite(cur,x[0],x[1],vite(sel,x[2],y[2],x[1]))
                return cur
            for off,n,v in wa:
                s.rawwrite(cur,off,n,vite(sel,v,s._read(sb,cur,len(cur.layers)-1,off,n,None),n))
            for off,n,v in wb:
                s.rawwrite(cur,off,n,vite(Not(sel),v,s._read(sa,cur,len(cur.layers)-1,off,n,None),n))
            return cur
        except Unsupported:
            return s.merge_generic(sel,A,B)
    def rawwrite(s,c,off,n,v):
        if isinstance(off,int) and isinstance(c.layers[-1],Cells):
            L=Cells(dict(c.layers[-1].d)); c.layers=c.layers[:-1]+[L]
            for x in range(off-15,off+n):
                if x in L.d and x!=off and x+L.d[x][0]>off: raise Unsupported('overlap')
            if off in L.d and L.d[off][0]!=n: raise Unsupported('overlap')
            L.d[off]=(n,v)
        else: c.layers=c.layers+[SymW(off,n,v),Cells()]
    def writes_of(s,layers):
        out=[]
        for l in layers:
            if isinstance(l,SymW): out.append((l.off,l.n,l.val))
            elif isinstance(l,Cells): out+= [(o,n,v) for o,(n,v) in l.d.items()]
            else: raise Unsupported('range in writes')
        return out
    def merge_generic(s,sel,A,B):
        a=Content(A.base,A.layers); b=Content(B.base,B.layers)
        def base(ctx,st,off,n):
            x=ctx._read(st,a,len(a.layers)-1,off,n,None); y=ctx._read(st,b,len(b.layers)-1,off,n,None)
            return vite(sel,x,y,n)
        return Content(base)
    # ------------------------------------------------------------ loops
    def run_loop(s,fr,h,prev,st,regs,stop,phidone=False):
        lp=loops_of(fr.f)
        if not phidone: regs=s.phis(fr,h,prev,dict(regs))
        saved=(len(s.obls),s.stats['ins'])
        outs0=len(fr.outs); lc0=[(len(l.back),len(l.exits)) for l in fr.lc]
        act=list(fr.active); inst0=dict(fr.inst)
        st0=st.fork(); regs0=dict(regs)
        key=(fr.f.name,h)
        pol=s.looppol(fr,h)
        if pol!='summarise':
            fr.active=act+[h]; my=fr.inst[h]=dict(symok=(pol=='symunroll'),conc=set(),t0=time.time())
            fr2=fr
            try:
                # run from header; nested entries to other loops handled recursively.
                return s.run(fr,h,None,st,regs,stop,0,True)
            except (LoopSym,Unsupported) as e:
                if isinstance(e,LoopSym):
                    if e.fr is not fr or e.h!=h: raise
                elif not s.small_unroll or my['conc'] or isinstance(e,PathLimit): raise
                slow=my.get('slow',False); del s.obls[saved[0]:]; del fr.outs[outs0:]
                for l,(b,x) in zip(fr.lc,lc0): del l.back[b:]; del l.exits[x:]
            finally:
                fr.active=act; fr.inst=inst0
        else: slow=False
        st1=st0.fork(); regs1=dict(regs0)
        try:
            if getattr(s,'force_inv',False): raise Unsupported('closed forms not tried')
            return s.summarise(fr,h,st0,regs0,stop)
        except Unsupported as e:
            if isinstance(e,PathLimit): raise
            del s.obls[saved[0]:]; del fr.outs[outs0:]
            for l,(b,x) in zip(fr.lc,lc0): del l.back[b:]; del l.exits[x:]
            fr.active=act; fr.inst=inst0
            if s.use_inv:
                import invariant
                try: return invariant.summarise_inv(s,fr,h,st1.fork(),dict(regs1),stop)
                except Unsupported as e2:
                    if not(s.sym_unroll or slow) or isinstance(e2,PathLimit): raise Unsupported('%s; by invariant: %s'%(e,e2))
            if slow:
                # constant trip count, but no summary: unroll after all
                del s.obls[saved[0]:]; del fr.outs[outs0:]
                for l,(b,x) in zip(fr.lc,lc0): del l.back[b:]; del l.exits[x:]
                fr.active=act+[h]; fr.inst[h]=dict(symok=(pol=='symunroll'),conc=set())
                try: return s.run(fr,h,None,st1,regs1,stop,0,True)
                finally: fr.active=act; fr.inst=inst0
            if not s.sym_unroll: raise
            del s.obls[saved[0]:]; del fr.outs[outs0:]
            for l,(b,x) in zip(fr.lc,lc0): del l.back[b:]; del l.exits[x:]
            fr.active=act+[h]; fr.inst[h]=dict(symok=True,conc=set()); s.bounded.add((s.cur[-1],str(e)))
            try: return s.run(fr,h,None,st1,regs1,stop,0,True)
            finally: fr.active=act; fr.inst=inst0
    def exact_div(s,st,op,A,b):
        """(c*b*x + r) div/rem b for bounded x: (c*x + r/b, r%b) without a division (side condition checked by the solver)"""
        import poly
        p=poly.to_poly(z3.simplify(A)); r0=p.get((),0); ms={m:c for m,c in p.items() if m}
        if not ms or r0>=1<<40 or any(len(m)!=1 or c%b or c>=1<<40 for m,c in ms.items()): return None
        L=((1<<62)-r0)//sum(ms.values())
        if not all(s.must(st,z3.ULE(poly._atoms[m[0]],z3.BitVecVal(L,64))) for m in ms): return None
        if op in('urem','srem'): return r0%b
        return norm(poly.from_poly({**{m:c//b for m,c in ms.items()},():r0//b}))
    def looppol(s,fr,h):
        return 'try'
    # ---- inductive summary of a loop whose trip count is symbolic
    def summarise(s,fr,h,st0,regs0,stop):
        import loops
        return loops.summarise(s,fr,h,st0,regs0,stop)
    # ------------------------------------------------------------ plain instructions
    def step(s,fr,I,st,regs):
        op=I.op; m=fr.f.mod
        R=lambda i: s.val(fr,regs,I.ops[i])
        if op=='load':
            regs[I.id]=s.load(st,R(0),I.ty); return
        if op=='store':
            s.store(st,R(1),R(0),m.opty(I.ops[0])); return
        if op=='getelementptr':
            b=R(0); idx=[s.val(fr,regs,o) for o in I.ops[1:]]
            regs[I.id]=s.gep(st,m,I.extra['src'],as_ptr(b),idx,[m.opty(o) for o in I.ops[1:]]); return
        if op=='alloca':
            n=R(0); t=I.extra['aty']
            if not isinstance(n,int): 
                nn=bv(n,m.opty(I.ops[0]).w); nn=z3.ZeroExt(64-nn.size(),nn) if nn.size()<64 else nn
                size=norm(z3.simplify(nn*t.size))
            else: size=t.size*n
            nm=llvmir._name(I.ref) or 'tmp'
            o=s.new(st,'%s.%s'%(s.cur[-1] if s.cur else '',nm),size,'stack'); fr.allocas.append(o)
            if not hasattr(s,'stackids'): s.stackids={}
            s.stackids[o.id]=True
            regs[I.id]=Ptr(o,0); return
        t=I.ty
        if op in('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'):
            regs[I.id]=s.ibin(st,op,R(0),R(1),t,I); return
        if op in('fadd','fsub','fmul','fdiv','frem'):
            a,b=R(0),R(1); n=t.store
            a=a if isinstance(a,float) else fpz(a,n); b=b if isinstance(b,float) else fpz(b,n)
            ca,cb=fconc(a),fconc(b)
            regs[I.id]=fbin(op,ca if ca is not None else a,cb if cb is not None else b,n); return
        if op=='fneg':
            a=R(0); regs[I.id]=-a if isinstance(a,float) else z3.fpNeg(fpz(a,t.store)); return
        if op=='icmp': regs[I.id]=s.icmp(st,I.extra['pred'],R(0),R(1),m.opty(I.ops[0])); return
        if op=='fcmp':
            n=m.opty(I.ops[0]).store; regs[I.id]=simp(fcmp(I.extra['pred'],R(0),R(1),n)); return
        if op in('trunc','zext','sext'):
            v=R(0); w=m.opty(I.ops[0]).w
            if isptr(v):
                if w==t.w: regs[I.id]=v; return
                raise Unsupported('cast of pointer value')
            regs[I.id]=s.icast(op,v,w,t.w); return
        if op in('sitofp','uitofp'):
            v=R(0); w=m.opty(I.ops[0]).w
            if isinstance(v,(int,bool)):
                x=float(signed(int(v),w) if op=='sitofp' and w>1 else int(v)); regs[I.id]=f32r(x) if t.k=='float' else x; return
            v=bv(v,w)
            regs[I.id]=(z3.fpSignedToFP if op=='sitofp' else z3.fpUnsignedToFP)(RNE,v,fsort(t.store)); return
        if op in('fptosi','fptoui'):
            v=R(0); n=m.opty(I.ops[0]).store; c=fconc(v) if not isinstance(v,z3.BitVecRef) else None
            if c is not None and math.isfinite(c): regs[I.id]=int(c)&MASK[t.w] if not s.fp2int_target or abs(c)<2.0**(t.w-1) else 1<<(t.w-1); return
            if c is not None and s.fp2int_target: regs[I.id]=1<<(t.w-1); return
            if isinstance(v,z3.FPRef) and v.sort()==F64 and z3.is_app(v) and v.decl().kind() in(z3.Z3_OP_FPA_TO_FP,z3.Z3_OP_FPA_TO_FP_UNSIGNED) and v.num_args()==2 and isinstance(v.arg(1),z3.BitVecRef):
                # an integer of at most 53 bits survives the way through a double
                x=v.arg(1); sg=v.decl().kind()==z3.Z3_OP_FPA_TO_FP; sz_=x.size()
                if sz_<=53 and sz_<=t.w and (op=='fptosi' or not sg) and (sg or sz_<t.w or op=='fptoui'):
                    regs[I.id]=x if sz_==t.w else (z3.SignExt if sg else z3.ZeroExt)(t.w-sz_,x); return
            if s.fp2int_target and op=='fptosi' and t.w in(32,64):
                # x86-64: conversions out of range (undefined in C++) give the integer indefinite value
                s.assumptions.add('out-of-range floating point to integer conversions give the x86-64 indefinite integer'); X=fpz(v,n); lim=2.0**(t.w-1)
                inr=z3.And(z3.fpLT(X,z3.FPVal(lim,X.sort())),z3.fpGT(X,z3.FPVal(-lim-1,X.sort())) if t.w==32 and n==8 else z3.fpGEQ(X,z3.FPVal(-lim,X.sort())))
                regs[I.id]=z3.If(inr,z3.fpToSBV(z3.RTZ(),X,z3.BitVecSort(t.w)),z3.BitVecVal(1<<(t.w-1),t.w)); return
            regs[I.id]=(z3.fpToSBV if op=='fptosi' else z3.fpToUBV)(z3.RTZ(),fpz(v,n),z3.BitVecSort(t.w)); return
        if op=='fpext':
            v=R(0); c=fconc(v) if isinstance(v,(float,z3.FPRef)) else None
            regs[I.id]=c if c is not None else z3.fpToFP(RNE,fpz(v,m.opty(I.ops[0]).store),fsort(t.store)); return
        if op=='fptrunc':
            v=R(0); c=fconc(v) if isinstance(v,(float,z3.FPRef)) else None
            regs[I.id]=(f32r(c) if not math.isnan(c) else c) if c is not None else z3.fpToFP(RNE,fpz(v,m.opty(I.ops[0]).store),fsort(t.store)); return
        if op in('bitcast','addrspacecast'):
            v=R(0); src=m.opty(I.ops[0])
            if v is UNDEF: regs[I.id]=UNDEF
            elif t.k=='int' and src.k in('float','double'): regs[I.id]=fp_bits(v,t.store)
            elif src.k=='int' and t.k in('float','double'): regs[I.id]=bits_fp(v,t.store)
            else: regs[I.id]=v
            return
        if op=='ptrtoint': regs[I.id]=R(0); return
        if op=='inttoptr': regs[I.id]=as_ptr(R(0)); return
        if op=='select':
            c=R(0); a,b=R(1),R(2)
            if isinstance(c,z3.BoolRef): c=simp(c)
            if isinstance(c,(bool,int)): regs[I.id]=a if c else b
            else: regs[I.id]=vite(zbool(c),a,b,t.store)
            return
        if op=='extractvalue':
            v=R(0)
            for i in I.extra['idx']: v=v[i] if v is not UNDEF else UNDEF
            regs[I.id]=v; return
        if op=='insertvalue':
            v=R(0); x=R(1); idx=I.extra['idx']
            def ins(v,idx,ty):
                n=len(ty.els) if ty.k=='struct' else ty.n
                l=list(v) if v is not UNDEF else [UNDEF]*n
                # keep trailing annotations (exception value)
                l[idx[0]]=x if len(idx)==1 else ins(l[idx[0]],idx[1:],ty.els[idx[0]] if ty.k=='struct' else ty.el)
                if t.k=='struct' and len(l)==2 and idx==[0] and isinstance(x,ExcPtr): l.append(x.exc)
                return l
            regs[I.id]=ins(v,idx,t); return
        if op=='freeze':
            v=R(0)
            if v is UNDEF: v=fresh('frz',t.w) if t.k=='int' else UNDEF
            regs[I.id]=v; return
        if op=='landingpad':
            e=regs.get('exc'); 
            sel=s.lpad(fr,I,e,st)
            regs[I.id]=[ExcPtr(e),sel,e]; return
        if op=='fence': return
        raise Unsupported('instruction %s'%I)
    def lpad(s,fr,I,e,st):
        for i,c in enumerate(I.extra['clauses']):
            cv=s.cval(fr.f.mod,c)
            if isinstance(cv,Ptr) and cv.obj is None: return i+1   # catch (...)
            if isinstance(cv,list): continue
            nm=cv.obj.name[1:] if isinstance(cv,Ptr) and cv.obj else getattr(cv,'name','?')
            if s.exc_matches(e.tinfo,nm): return s.typeid(nm)
        return 0
    def typeid(s,nm):
        if not hasattr(s,'_tid'): s._tid={}
        return s._tid.setdefault(nm,len(s._tid)+1)
    EXH={'_ZTISt13runtime_error':['_ZTISt9exception'],'_ZTISt12domain_error':['_ZTISt11logic_error','_ZTISt9exception'],'_ZTISt11logic_error':['_ZTISt9exception'],'_ZTISt12out_of_range':['_ZTISt11logic_error','_ZTISt9exception'],'_ZTISt16invalid_argument':['_ZTISt11logic_error','_ZTISt9exception'],'_ZTISt12length_error':['_ZTISt11logic_error','_ZTISt9exception'],'_ZTISt9bad_alloc':['_ZTISt9exception']}
    def exc_matches(s,t,nm):
        if t==nm: return True
        return nm in s.EXH.get(t,[]) 
    def icast(s,op,v,w,w2):
        if v is UNDEF: return UNDEF
        if isinstance(v,bool) or isinstance(v,z3.BoolRef):
            if isinstance(v,bool): return (int(v) if op=='zext' else (MASK[w2] if v else 0)) if op!='trunc' else v
            return z3.If(v,z3.BitVecVal(1 if op!='sext' else MASK[w2],w2),z3.BitVecVal(0,w2))
        if isinstance(v,int):
            if op=='trunc': return bool(v&1) if w2==1 else v&MASK[w2]
            if op=='zext': return v
            return signed(v,w)&MASK[w2]
        if isinstance(v,(float,z3.FPRef)): v=bv(v,w)
        if op=='trunc':
            if w2==1: return simp(z3.Extract(0,0,v)==1)
            # trunc of zext/concat simplifies
            return norm(z3.simplify(z3.Extract(w2-1,0,v)))
        if op=='zext': return z3.ZeroExt(w2-w,v)
        return z3.SignExt(w2-w,v)
    def ibin(s,st,op,a,b,t,I=None):
        w=t.w
        if a is UNDEF and b is UNDEF: return UNDEF
        if isptr(a) or isptr(b): return s.ptrarith(st,op,a,b,w)
        if w==1:
            A,B=zbool(a),zbool(b)
            r={'and':lambda:z3.And(A,B),'or':lambda:z3.Or(A,B),'xor':lambda:z3.Xor(A,B),'add':lambda:z3.Xor(A,B),'sub':lambda:z3.Xor(A,B),'mul':lambda:z3.And(A,B)}[op]()
            return simp(r)
        if isinstance(a,bool): a=int(a)
        if isinstance(b,bool): b=int(b)
        if isinstance(a,int) and isinstance(b,int):
            M=MASK[w]
            if op=='add': return (a+b)&M
            if op=='sub': return (a-b)&M
            if op=='mul': return (a*b)&M
            if op=='and': return a&b
            if op=='or': return a|b
            if op=='xor': return a^b
            if op=='shl': return (a<<b)&M if b<w else s.badshift(st,I)
            if op=='lshr': return a>>b if b<w else s.badshift(st,I)
            if op=='ashr': return (signed(a,w)>>b)&M if b<w else s.badshift(st,I)
            if b==0:
                s.fail_access(st,True,'division by zero'); raise DeadPath()
            if op=='udiv': return a//b
            if op=='urem': return a%b
            x,y=signed(a,w),signed(b,w); q=abs(x)//abs(y); q=-q if (x<0)!=(y<0) else q
            return (q if op=='sdiv' else x-q*y)&M
        A,B=bv(a,w),bv(b,w)
        if op=='mul':
            for x,y,n in getattr(s,'products',()):
                # the product of two positive unknowns that is assumed not to overflow has a name of its own
                ca,cb=core_of(A),core_of(B)
                if ca.eq(x) and cb.eq(y) or ca.eq(y) and cb.eq(x): return n if w==n.size() else z3.SignExt(w-n.size(),n)
        if op in('udiv','sdiv','urem','srem'):
            if not isinstance(b,int):
                g=B!=0
                if s.check_mem and not s.mute: s.oblige(st,g,'division by zero at '+s.here(),'arith')
                st.assume(g)
            elif b==0:
                s.fail_access(st,True,'division by zero'); raise DeadPath()
            if w==64 and isinstance(b,int) and 0<b<1<<40:
                r=s.exact_div(st,op,A,b)
                if r is not None: return r
            r={'udiv':z3.UDiv,'sdiv':lambda x,y:x/y,'urem':z3.URem,'srem':z3.SRem}[op](A,B)
            return r
        if op=='add': 
            if isinstance(b,int) and b==0: return a
            if isinstance(a,int) and a==0: return b
            r=A+B
            # keep sums of constants folded
            return norm(z3.simplify(r)) if (isinstance(a,int) or isinstance(b,int)) else r
        if op=='sub':
            if isinstance(b,int) and b==0: return a
            r=remainder(A,B)
            if r is not None: return r
            return norm(z3.simplify(A-B)) if (isinstance(a,int) or isinstance(b,int)) else norm(z3.simplify(A-B)) if A.eq(B) else A-B
        if op=='mul':
            if isinstance(b,int) and b==1: return a
            if isinstance(a,int) and a==1: return b
            if a==0 if isinstance(a,int) else False: return 0
            if b==0 if isinstance(b,int) else False: return 0
            return A*B
        if op=='and':
            if isinstance(b,int) and b==MASK[w]: return a
            if (isinstance(a,int) and a==0) or (isinstance(b,int) and b==0): return 0
            return norm(z3.simplify(A&B)) if isinstance(b,int) or isinstance(a,int) else A&B
        if op=='or':
            if isinstance(b,int) and b==0: return a
            if isinstance(a,int) and a==0: return b
            return A|B
        if op=='xor': return A^B
        if op in('shl','lshr','ashr'):
            if isinstance(b,int):
                if b==0: return a
                if b>=w: return s.badshift(st,I)
            r={'shl':lambda:A<<B,'lshr':lambda:z3.LShR(A,B),'ashr':lambda:A>>B}[op]()
            return norm(z3.simplify(r)) if isinstance(b,int) else r
        raise Unsupported(op)
    def badshift(s,st,I):
        return fresh('badshift',I.ty.w)
    def ptrarith(s,st,op,a,b,w):
        if op=='sub':
            if isptr(a) and isptr(b):
                a,b=as_ptr(a),as_ptr(b)
                if isinstance(a,PtrIte) or isinstance(b,PtrIte):
                    ra=s.resolve(st,a); rb=s.resolve(st,b); res=None
                    for c1,p in ra:
                        for c2,q in rb:
                            if not s.feasible(st,c1,c2): continue
                            v=s.ptrarith(st,op,p,q,w)
                            res=v if res is None else vite(And(c1,c2),v,res,8)
                    return res
                if isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj is b.obj: return off_add(a.off,(-b.off)&MASK[64] if isinstance(b.off,int) else -b.off) if not(isinstance(a.off,int) and isinstance(b.off,int)) else (a.off-b.off)&MASK[64]
                if isinstance(b,Ptr) and b.obj is None and isinstance(b.off,int) and b.off==0: return a
                return fresh('ptrdiff',64)
            if isptr(a): 
                return s.padd(a,(-b)&MASK[64] if isinstance(b,int) else -b)
        if op=='add':
            return s.padd(a,b) if isptr(a) else s.padd(b,a)
        if op=='and' and isptr(a) and isinstance(b,int) and isinstance(a,Ptr) and isinstance(a.off,int) and b<16:
            return a.off&b
        raise Unsupported('pointer arithmetic '+op)
    def icmp(s,st,pred,a,b,t):
        if a is UNDEF or b is UNDEF: return z3.Bool(fname('undefcmp'))
        if isptr(a) or isptr(b): return s.pcmp(st,pred,as_ptr(a),as_ptr(b))
        w=t.w
        if w==1 or isinstance(a,(bool,z3.BoolRef)) or isinstance(b,(bool,z3.BoolRef)):
            A,B=zbool(a),zbool(b)
            if pred=='eq': return simp(A==B)
            if pred=='ne': return simp(z3.Xor(A,B))
            A,B=bv(A,1),bv(B,1); w=1
            a,b=A,B
        if isinstance(a,int) and isinstance(b,int):
            if pred[0]=='s': x,y=signed(a,w),signed(b,w)
            else: x,y=a,b
            return {'eq':x==y,'ne':x!=y}.get(pred) if pred in('eq','ne') else {'gt':x>y,'ge':x>=y,'lt':x<y,'le':x<=y}[pred[1:]]
        A,B=bv(a,w),bv(b,w)
        if pred=='eq': r=A==B
        elif pred=='ne': r=A!=B
        else: r={'ugt':z3.UGT,'uge':z3.UGE,'ult':z3.ULT,'ule':z3.ULE,'sgt':lambda x,y:x>y,'sge':lambda x,y:x>=y,'slt':lambda x,y:x<y,'sle':lambda x,y:x<=y}[pred](A,B)
        return simp(r)
    def pcmp(s,st,pred,a,b):
        if isinstance(a,PtrIte) or isinstance(b,PtrIte):
            ra=s.resolve(st,a); rb=s.resolve(st,b); res=[]
            for c1,p in ra:
                for c2,q in rb:
                    r=s.pcmp(st,pred,p,q)
                    res.append(And(c1,c2,r if not isinstance(r,(bool,int)) else bool(r)))
            return simp(zbool(Or(*res)))
        if isinstance(a,FnPtr) or isinstance(b,FnPtr):
            if isinstance(a,FnPtr) and isinstance(b,FnPtr): e=a.name==b.name
            else: e=False
            if isinstance(a,Ptr) and a.obj is None or isinstance(b,Ptr) and b.obj is None: e=False
            return e if pred=='eq' else not e
        if a.obj is b.obj:
            ao,bo=a.off,b.off
            if isinstance(ao,int): ao&=MASK[64]
            if isinstance(bo,int): bo&=MASK[64]
            if isinstance(ao,int) and isinstance(bo,int) and pred[0]!='s' and pred not in('eq','ne'):
                ao,bo=signed(ao,64),signed(bo,64)
                return {'gt':ao>bo,'ge':ao>=bo,'lt':ao<bo,'le':ao<=bo}[pred[1:]]
            class T: w=64
            if pred not in('eq','ne'): pred='s'+pred[1:]
            return s.icmp(st,pred,ao,bo,T)
        # different objects
        if pred=='eq':
            return False if not(a.obj is None and not isinstance(a.off,int) or b.obj is None and not isinstance(b.off,int)) else z3.Bool(fname('ptreq'))
        if pred=='ne':
            r=s.pcmp(st,'eq',a,b); return Not(r)
        # ordering of unrelated pointers (e.g. std::less, string overlap checks)
        return z3.Bool(fname('ptrord'))
    # ------------------------------------------------------------ calls
    def do_call(s,fr,I,st,regs):
        c=I.extra['callee']
        args=[s.val(fr,regs,o) if not(o[0]=='c' and o[2] in('md','asm')) else None for o in I.ops]
        if c[0]=='c' and c[2]=='asm': raise Unsupported('inline asm')
        fv=s.val(fr,regs,c) if c[0]=='l' else s.cval(fr.f.mod,c)
        try:
            if isinstance(fv,PtrIte):
                res=[]
                for cc,q in s.resolve(st,fv):
                    st2=st.fork(); st2.assume(cc); res+=s.call_val(fr,I,q,args,st2)
                return res
            return s.call_val(fr,I,fv,args,st)
        except DeadPath:
            return []
    def call_val(s,fr,I,fv,args,st):
        if not isinstance(fv,FnPtr):
            h=getattr(s,'indirect',None)
            if h:
                r=h(s,fr,I,fv,args,st)
                if r is not None: return r
            raise Unsupported('indirect call through %r at %s'%(fv,s.here()))
        name=fv.name
        return s.call_name(name,args,st,I,fr)
    def call_name(s,name,args,st,I=None,fr=None):
        dem=s.prog.dem.get(name,name)
        ct=s.contracts.get(name)
        if ct is not None and not (s.cur_target==name and not s.cur):
            s.applied.add(dem)
            r=ct(s,st,args,I)
            if r is not NotImplemented: return s.outs(r,st)
        h=s.model_for(name,dem)
        if h is not None:
            s.callee=name
            r=h(s,st,args,I)
            if r is not NotImplemented: return s.outs(r,st)
        f=s.prog.lookup(fr.f.mod,name) if fr is not None else s.prog.funcs.get(name)
        if f is None or f.decl:
            raise Unsupported('call to unmodelled external function %s'%dem)
        s.inlined.add(dem)
        if s.cur.count(dem.split('(')[0])>30: raise Unsupported('deep recursion in '+dem)
        return s.call_fn(f,args,st)
    cur_target=None
    def outs(s,r,st):
        if isinstance(r,list) and all(isinstance(o,Outcome) for o in r): return r
        if isinstance(r,Outcome): return [r]
        return [Outcome('ret',st,r)]
    def model_for(s,name,dem):
        h=s.models.get(name)
        if h is not None: return h
        if name in s._mcache: return s._mcache[name]
        r=None
        for rx,fn in s.model_re:
            if rx.search(dem): r=fn; break
        s._mcache[name]=r
        return r
    use_inv=True
    fp2int_target=False
    def __init__(s,*a,**k):
        Ctx.__init__(s,*a,**k); s._mcache={}; s.bounded=set()
        import models; models.install(s)
class ExcPtr(Ptr):
    __slots__=('exc',)
    def __init__(s,e): s.obj=e.ptr.obj if e is not None and e.ptr is not None else None; s.off=0; s.exc=e
class FrameX:
    def __init__(s,fr): s.f=fr.f; s.outs=fr.outs; s.lc=[]; s.active=[]; s.inst={}; s.allocas=[]
