"""Check driver: units of proof (one per function under contract) run in forked workers; the concrete harness built
from the same sources is compared with the same specification; evidence and verdict."""
import os, sys, json, time, threading, traceback, pickle, signal, subprocess, select, random, resource, hashlib
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE); VERIF=os.path.dirname(HERE)
sys.path.insert(0,os.path.join(VERIF,'specs'))
import build
from build import InfraError
NPROC=8
SLOW=[1]
def patient(k):
    """multiply every solver time limit of this process by k (second attempts on a busy machine)"""
    import z3
    SLOW[0]=k
    if getattr(z3.Solver,'_patient',None) is None:
        z3.Solver._patient=z3.Solver.set
        def put(self,*a,**kw):
            if len(a)==2 and a[0]=='timeout': a=('timeout',int(a[1])*SLOW[0])
            return z3.Solver._patient(self,*a,**kw)
        z3.Solver.set=put
def bigstack(fn):
    """run fn in a thread with a big stack (recursive symbolic execution)"""
    import sym # sets the stack size
    r={}
    def f():
        try: r['v']=fn()
        except BaseException as e: r['e']=e; r['tb']=traceback.format_exc()
    t=threading.Thread(target=f); t.start(); t.join()
    if 'e' in r:
        if not isinstance(r['e'],(SystemExit,)): sys.stderr.write(r['tb'])
        raise r['e']
    return r.get('v')

class Unit:
    """context handed to a proof unit"""
    def __init__(s,check,name,budget):
        s.check=check; s.name=name; s.vms=[]; s.results=[]; s.on_model=None; s.budget=budget; s.t0=time.time(); s.covers=0; s.notes=[]
        s.solver_timeout=20000 if check.tier=='quick' else 120000
    def prog(s,bcs):
        import exec as E, llvmir
        return E.Program([llvmir.Module(b) for b in bcs])
    def vm(s,prog,**k):
        import vm as V
        v=V.VM(prog,s.name,**k); v.deadline=s.t0+s.budget; s.vms.append(v); return v
    def cover(s,vm,st,what):
        """vacuity guard: the paths that carry the postconditions must be reachable"""
        ok=vm.feasible_pc(st)
        if ok: s.covers+=1
        else: s.results.append(dict(name='reachable: '+what,kind='cover',where=s.name,status='vacuous',solver='z3',t=0,detail='no execution reaches this postcondition'))
        return ok
    def rets(s,vm,outs,allow=('ret',),what=''):
        """split outcomes; outcomes of any other kind than `allow` that are feasible become failed obligations"""
        import z3
        r=[]
        for o in outs:
            if o.kind=='ret': r.append(o)
            if o.kind not in allow:
                vm.oblige(o.st,z3.BoolVal(False),'%s: no %s (%s)'%(what or s.name,o.kind,o.val if o.kind!='throw' else getattr(o.val,'tinfo','')),'outcome')
        if not any(s.cover(vm,o.st,what or s.name) for o in r) and 'ret' in allow and not r:
            s.results.append(dict(name='some normal return',kind='cover',where=s.name,status='vacuous',solver='-',t=0,detail=''))
        return r
    def ok(s,name,n=1,kind='post'):
        """n obligations whose two sides are the same term"""
        if n: s.results.append(dict(name=name,kind=kind,where=s.name,status='ok',solver='syntactic',t=0.0,detail='',n=n))
    def equal(s,vm,st,got,want,name,bits,kind='post'):
        """oblige got==want (bit patterns); returns True when it is already the same term"""
        import z3
        from sym import bv,same
        if got is want or same(got,want): return True
        if isinstance(got,(float,z3.FPRef)) or isinstance(want,(float,z3.FPRef)):
            from sym import fpz
            a,b=fpz(got,bits//8),fpz(want,bits//8)
            if a.eq(b): return True
            vm.oblige(st,a==b,name,kind); return False
        g=z3.simplify(bv(got,bits)) if not isinstance(got,int) else z3.BitVecVal(got,bits); w=z3.simplify(bv(want,bits)) if not isinstance(want,int) else z3.BitVecVal(want,bits)
        if g.eq(w): return True
        vm.oblige(st,g==w,name,kind); return False
    def result(s,name,ok,kind='post',detail='',solver='eval',t=0.0,case=None):
        s.results.append(dict(name=name,kind=kind,where=s.name,status='ok' if ok else 'refuted',solver=solver,t=t,detail=detail,case=case))

def _discharge(U):
    import z3, sym
    seen={}
    for vm in U.vms:
        for o in vm.obls:
            d=dict(name=o.name,kind=o.kind,where=o.where,status=o.status,solver=o.solver,t=0.0,detail=o.detail or '')
            if o.status=='ok': U.results.append(d); continue
            key=(tuple(p.get_id() for p in o.pc),o.goal.get_id())
            if key in seen:
                d.update(status=seen[key]['status'],solver=seen[key]['solver'],detail=seen[key]['detail'],case=seen[key].get('case')); U.results.append(d); continue
            t=time.time()
            nbad=sum(r['status']!='ok' for r in U.results)
            solve(U,o,d,rush=nbad>=20 or (nbad>=3 and time.time()-U.check.t0>150 and SLOW[0]==1))
            d['t']=time.time()-t; seen[key]=d; U.results.append(d)
def solve(U,o,d,rush=False):
    # after 20 failed obligations of a unit the verdict is clear: the rest gets one short attempt
    limit=1000 if rush else U.solver_timeout
    import z3
    g=z3.simplify(o.goal)
    if z3.is_true(g): d.update(status='ok',solver='simplify'); return
    import reals, approx
    fp=reals.has_fp(o.goal)
    if fp and approx.goal_equal(o.goal): d.update(status='ok',solver='real-arithmetic normal form (rounding abstracted)'); return
    if fp and approx.abstract_prove(o.pc,o.goal,2000): d.update(status='ok',solver='z3, arithmetic by normal form (rounding abstracted)'); return
    def attempt(ms):
        S=z3.Solver(); S.set('timeout',ms); S.add(*o.pc); S.add(z3.Not(o.goal)); return S,S.check()
    if not fp:
        import invariant
        if invariant.slice_prove(o.pc,o.goal,400): d.update(status='ok',solver='z3'); return
    S,r=attempt(min(4000,limit) if fp else min(3000,limit))
    if r==z3.unknown and not fp:
        import absnl
        if absnl.prove(o.pc,o.goal,min(limit,10000)): d.update(status='ok',solver='z3, products and divisions of unknowns uninterpreted'); return
        S,r=attempt(limit)
    if r==z3.unknown and fp:
        if not rush and reals.prove(o.pc,o.goal,10000 if U.check.quick else 40000):
            d.update(status='ok',solver='z3 over the reals (rounding abstracted)'); return
        S,r=attempt(limit)
    if r==z3.unsat: d.update(status='ok',solver='z3'); return
    if r==z3.sat:
        m=S.model()
        if fp and not rush and reals.prove(o.pc,o.goal,5000): d.update(status='ok',solver='z3 over the reals (rounding abstracted)'); return
        d.update(status='refuted',solver='z3',detail=str(m)[:1500])
        if U.on_model:
            try: d['case']=U.on_model(lambda e,m=m: m.eval(e,model_completion=True),o)
            except Exception as ex: d['detail']+='\n(no concrete input: %r)'%ex
        return
    if rush: d.update(status='unknown',solver='z3',detail='not decided in the short attempt'); return
    # cvc5 on the exported problem
    r2=cvc5(S,limit)
    if r2=='unsat': d.update(status='ok',solver='cvc5'); return
    d.update(status='refuted' if r2=='sat' else 'unknown',solver='z3+cvc5',detail='solver: %s / %s'%(r,r2))
def cvc5(S,ms):
    txt=S.to_smt2()
    for q in('bvudiv','bvurem','bvsdiv','bvsrem','bvsmod'): txt=txt.replace(q+'_i ',q+' ')
    import re as _re
    txt=_re.sub(r'(?<=[( ])(exp|sin|cos|tan|sqrt|pow)(?=[ )])',r'u_\1',txt)
    p=os.path.join(build.workdir(),'q%d_%d.smt2'%(os.getpid(),time.time_ns())); open(p,'w').write('(set-logic ALL)\n'+txt)
    try:
        ms=ms*SLOW[0]; r=subprocess.run(['cvc5','--tlimit=%d'%ms,p],stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=ms/1000+10)
        return r.stdout.decode().strip().split('\n')[0] or 'error'
    except Exception: return 'unknown'
    finally: os.unlink(p)

class Check:
    def __init__(s,pid,level='proof'):
        s.pid=pid; s.tier=os.environ.get('VERIF_TIER','quick'); s.seed=int(os.environ.get('VERIF_SEED','1') or 1)
        s.t0=time.time(); s.units=[]; s.level=level; s.rnd=random.Random('%s/%d'%(pid,s.seed))
        s.results=[]; s.viol=[]; s.known=[]; s.assumptions=set(); s.inlined=set(); s.applied=set(); s.ucov={}; s.ncases=0; s.samples=[]; s.distinct=set(); s.stats={}
        s.trusted=['clang-18 -O0 front end + opt sroa,loop-simplify (C++ to LLVM IR)','the VC generator in /verif/engine (cross-checked on every run: the executable built from the same sources must agree with the specification on the replayed inputs)','z3 4.x, cvc5 1.1']
        s.assume_text=['signed integer overflow wraps (two\'s complement), as compiled','object sizes are below 2^63']
        s.findings=[l.strip() for l in open(os.path.join(VERIF,'known-findings.txt'))] if os.path.exists(os.path.join(VERIF,'known-findings.txt')) else []
        s.bounded=[]; s.notes=[]; s.hits={}
        build.workdir()
    quick=property(lambda s:s.tier=='quick')
    def unit(s,name,fn,budget=None):
        s.units.append((name,fn,budget or (240 if s.quick else 2400)))
    # ---------------------------------------------------------------- proof
    def _child(s,name,fn,budget,out,slow=1):
        if slow>1: patient(slow)
        resource.setrlimit(resource.RLIMIT_AS,(14<<30,14<<30))
        import atexit; 
        res=dict(name=name,error=None)
        U=Unit(s,name,budget)
        def work():
            import sym
            try:
                fn(U); _discharge(U)
            except sym.Unsupported as e: res['error']=('unsupported',str(e)); 
            except InfraError as e: res['error']=('infra',str(e))
            except MemoryError: res['error']=('unsupported','memory')
            except RecursionError: res['error']=('unsupported','recursion')
            except Exception as e: res['error']=('unsupported','%s'%traceback.format_exc()[-1500:])
        import sym
        t=threading.Thread(target=work); t.start(); t.join()
        res['results']=U.results; res['assumptions']=set().union(*[v.assumptions for v in U.vms]) if U.vms else set()
        res['inlined']=set().union(*[v.inlined for v in U.vms]) if U.vms else set()
        res['applied']=set().union(*[v.applied for v in U.vms]) if U.vms else set()
        res['stats']={k:sum(v.stats[k] for v in U.vms) for k in('ins','feas','feas_t')} if U.vms else {}
        res['memok']=sum(getattr(v,'memok',0) for v in U.vms)
        res['bounded']=set().union(*[v.bounded for v in U.vms]) if U.vms else set()
        res['loops']=sum(v.loopsummaries for v in U.vms); res['covers']=U.covers; res['notes']=U.notes; res['wall']=time.time()-U.t0
        with open(out,'wb') as f: pickle.dump(res,f)
        sys.stdout.flush(); sys.stderr.flush()
        os._exit(0)
    def prove(s,only=None):
        todo=[u for u in s.units if not only or only in u[0]]; run={}; done=[]; t00=time.time(); s.total=400 if s.quick else 6000
        wd=build.workdir()
        while todo or run:
            while todo and len(run)<NPROC:
                name,fn,budget=todo.pop(0); left=s.total-(time.time()-t00)
                if left<20: done.append(dict(name=name,error=('unsupported','time budget of the check exhausted'),results=[],assumptions=set(),inlined=set(),applied=set(),stats={},bounded=set(),loops=0,covers=0,notes=[],wall=0,memok=0)); continue
                budget=min(budget,left); out=os.path.join(wd,'u%d.pkl'%len(done+list(run))) ; out=os.path.join(wd,'u_%s.pkl'%hashlib.sha1(name.encode()).hexdigest()[:10])
                sys.stdout.flush(); sys.stderr.flush()
                pid=os.fork()
                if pid==0:
                    try: s._child(name,fn,budget,out)
                    finally: os._exit(3)
                run[pid]=(name,out,time.time(),budget)
            pid,stt=os.waitpid(-1,os.WNOHANG)
            if pid==0:
                for p,(n,o,t,b) in list(run.items()):
                    if time.time()-t>b+60: os.kill(p,signal.SIGKILL)
                time.sleep(0.05); continue
            if pid not in run: continue
            name,out,t,b=run.pop(pid)
            try: res=pickle.load(open(out,'rb'))
            except Exception: res=dict(name=name,error=('unsupported','worker died (status %d)'%stt),results=[],assumptions=set(),inlined=set(),applied=set(),stats={},bounded=set(),loops=0,covers=0,notes=[],wall=time.time()-t,memok=0)
            done.append(res)
        s.units_done=sorted(done,key=lambda r:r['name'])
        for r in s.units_done:
            s.assumptions|=r['assumptions']; s.inlined|=r['inlined']; s.applied|=r['applied']
            for x in r['results']: x['unit']=r['name']; s.results.append(x)
            if os.environ.get('VERBOSE'):
                bad=[x for x in r['results'] if x['status']!='ok']
                print('unit %-50s %6.1fs ins=%s obl=%d bad=%d %s'%(r['name'],r['wall'],r['stats'].get('ins'),len(r['results']),len(bad),r['error'] or ''))
                for x in bad[:6]: print('    ',x['status'],x['name'],x['where'],x['detail'][:300].replace('\n',' '))
                for n in r['notes'][:20]: print('    note',n)
                for x in sorted(r['results'],key=lambda x:-x['t'])[:4]:
                    if x['t']>1.5: print('    slow %.1fs %s %s'%(x['t'],x['name'],x['solver']))
    def again(s,names,allowance=270,par=4):
        """Second attempt at units that failed without a failing input, with four times the solver limits and less
        running side by side: a proof that only ran out of time on a busy machine is found now. Ends as soon as one
        unit fails again. True when every one of them was proved this time."""
        todo=[u for u in s.units if u[0] in names]; run={}; t00=time.time(); wd=build.workdir(); good=True
        while (todo and good) or run:
            while good and todo and len(run)<par:
                name,fn,budget=todo.pop(0); out=os.path.join(wd,'v_%s.pkl'%hashlib.sha1(name.encode()).hexdigest()[:10])
                sys.stdout.flush(); sys.stderr.flush()
                pid=os.fork()
                if pid==0:
                    try: s._child(name,fn,allowance,out,4)
                    finally: os._exit(3)
                run[pid]=(name,out)
            pid,stt=os.waitpid(-1,os.WNOHANG)
            if pid==0:
                if time.time()-t00>allowance or not good:
                    for q in run: os.kill(q,signal.SIGKILL)
                    good=False
                time.sleep(0.05); continue
            if pid not in run: continue
            name,out=run.pop(pid)
            try: res=pickle.load(open(out,'rb'))
            except Exception: good=False; continue
            if res['error'] or any(x['status']!='ok' and not s.is_known('%s / %s'%(name,x['name'])) for x in res['results']): good=False; continue
            for x in res['results']: x['unit']=name
            s.results=[x for x in s.results if x['unit']!=name]+res['results']
            s.units_done=[r for r in s.units_done if r['name']!=name]+[res]
            s.notes.append('%s: proved in the second attempt'%name)
        s.units_done.sort(key=lambda r:r['name'])
        return good and not todo
    # ---------------------------------------------------------------- concrete side
    def native(s,name,sources,**k): return build.native(name,sources,**k)
    def run_cases(s,exe,lines,timeout=None,env=None,per=20.0):
        """feed one case per line; one output line per case. A crash or hang is the output of the case that caused it."""
        outs=[]; i=0; e=dict(os.environ); e.update(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=2000',UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0',LC_ALL='C',TZ='UTC'); e.update(env or {})
        crashes=0
        while i<len(lines):
            p=subprocess.Popen([exe],stdin=subprocess.PIPE,stdout=subprocess.PIPE,stderr=subprocess.PIPE,env=e,cwd=build.workdir())
            data=('\n'.join(lines[i:])+'\n').encode()
            def feed():
                try: p.stdin.write(data); p.stdin.close()
                except Exception: pass
            th=threading.Thread(target=feed,daemon=True); th.start()
            err=[]; te=threading.Thread(target=lambda:err.append(p.stderr.read()),daemon=True); te.start()
            buf=b''; last=time.time(); hang=False; fd=p.stdout.fileno()
            while True:
                r,_,_=select.select([fd],[],[],1.0)
                if r:
                    c=os.read(fd,1<<20)
                    if not c: break
                    buf+=c; last=time.time()
                elif time.time()-last>per: hang=True; p.kill(); break
            p.wait(); te.join(2)
            got=buf.decode('latin1').split('\n'); got=got[:-1]
            outs+=got[:len(lines)-i]; i+=len(got)
            if i<len(lines):
                er=(err[0] if err else b'').decode('latin1')
                outs.append('HANG' if hang else 'CRASH '+crash_summary(er,p.returncode)); i+=1; crashes+=1
                if crashes>40:
                    outs+=['SKIPPED']*(len(lines)-i); break
        return outs
    def expect(s,what,inp,got,want,key=None,ok=None):
        """one concrete evaluation of the contract on the real code"""
        s.ncases+=1; h=hashlib.sha1(repr((what,inp)).encode()).digest()[:8]; s.distinct.add(h)
        if len(s.samples)<6 and s.hits.get(what,0)<2: s.samples.append('%s: %s -> %s'%(what,str(inp)[:160],str(got)[:120]))
        s.hits[what]=s.hits.get(what,0)+1
        good=(got==want) if ok is None else ok
        if got=='SKIPPED': return True
        if not good: s.viol.append(dict(kind='concrete',what=what,input=inp,got=got,want=want,key=key or what))
        return good
    # ---------------------------------------------------------------- verdict
    def is_known(s,text):
        for l in s.findings:
            if l.startswith('finding:') and 'property=%s '%s.pid in l:
                k=l.split('key=',1)[1].split(' :: ',1)[0].strip()
                if k and k==text: return l
        return None
    def finish(s,functions=(),rule='',explanation=None,replayer=None):
        bad=[r for r in s.results if r['status'] in('refuted','vacuous')]
        unk=[r for r in s.results if r['status']=='unknown']
        unsup=[(r['name'],r['error']) for r in getattr(s,'units_done',[]) if r['error']]
        # counterexamples of refuted obligations against the real code
        if replayer:
            for r in bad:
                if r.get('case') is not None:
                    try: replayer(r['case'],r)
                    except InfraError: pass
        kn=[]; viol=[]
        for v in s.viol:
            k=s.is_known(v['key'])
            (kn if k else viol).append((v,k))
        fresh=lambda:sorted({r['unit'] for r in s.results if r['status']!='ok' and not s.is_known('%s / %s'%(r['unit'],r['name']))})
        if not viol and fresh() and s.quick:
            ok=s.again(fresh(),max(60,min(270,780-(time.time()-s.t0))))
            if os.environ.get('VERBOSE'): print('second attempt:',ok)
            bad=[r for r in s.results if r['status'] in('refuted','vacuous')]
            unk=[r for r in s.results if r['status']=='unknown']
        kb=[]; badn=[]
        for r in bad+unk:
            k=s.is_known('%s / %s'%(r['unit'],r['name']))
            (kb if k else badn).append((r,k))
        for k in sorted({k for _,k in kn+kb}): print('KNOWN-FINDING: property=%s %s'%(s.pid,k.split(' :: ',1)[-1]))
        code=0; rep=os.path.join(VERIF,'work','replay'); os.makedirs(rep,exist_ok=True)
        for n,e in unsup:
            print('NOT-PROVED property=%s unit=%s: outside the verifier\'s reach on this tree (%s: %s); only the bounded concrete comparison stands in for it on this run'%(s.pid,n,e[0],e[1].strip().split('\n')[-1][:200]))
        infra=[e for n,e in unsup if e[0]=='infra']
        if viol or badn:
            path=os.path.join(rep,'%s.json'%s.pid)
            json.dump(dict(property=s.pid,concrete=[v for v,_ in viol][:50],failed_obligations=[{k:v for k,v in r.items()} for r,_ in badn][:50],repo=build.REPO),open(path,'w'),indent=1,default=str)
            if viol:
                v=viol[0][0]
                print('violation: %s input=%s got=%s want=%s (%d failing inputs in all, %d failed obligations)'%(v['what'],str(v['input'])[:300],str(v['got'])[:200],str(v['want'])[:200],len(viol),len(badn)))
                print('VIOLATION property=%s replay=%s'%(s.pid,path))
            else:
                r=badn[0][0]
                print('failed obligation: %s :: %s [%s] %s'%(r['unit'],r['name'],r['status'],r['detail'][:300].replace('\n',' ')))
                print('VIOLATION property=%s replay=%s no-failing-input-found'%(s.pid,path))
            code=1
        elif infra:
            print('cannot build: %s'%infra[0][1][-800:]); code=2
        disc=[r for r in s.results if r['status']=='ok']
        by={}
        for r in disc: by[r['solver']]=by.get(r['solver'],0)+r.get('n',1)
        un=getattr(s,'units_done',[])
        nob=lambda l:sum(r.get('n',1) for r in l)
        cov=dict(obligations=nob(s.results)+sum(r['memok'] for r in un),discharged=nob(disc)+sum(r['memok'] for r in un),
            checker_cmd='python3-vt /verif/checks/%s.py (VC generation from /repo\'s IR, then z3/cvc5)'%s.pid,
            trusted_base=s.trusted+sorted(s.assumptions)+s.assume_text,
            functions_under_contract=list(functions) or sorted({r['name'] for r in un}),
            units=[dict(unit=r['name'],wall_s=round(r['wall'],1),instructions=r['stats'].get('ins'),obligations=sum(x.get('n',1) for x in r['results'])+r['memok'],not_proved=r['error'],inductive_loops=r['loops'],reachability_covers=r['covers'],bounded_loops=sorted(map(str,r['bounded']))) for r in un],
            discharged_by=by, memory_accesses_within_constant_bounds=sum(r['memok'] for r in un), solver_s=round(sum(r['t'] for r in s.results)+sum(r['stats'].get('feas_t',0) for r in un),2),
            callee_contracts_applied=sorted(s.applied), functions_inlined=len(s.inlined),
            refuted=len(bad),unknown=len(unk),known_findings=len(kn)+len(kb),
            bounded_stand_ins=s.bounded+[dict(unit=n,why=e[0]) for n,e in unsup],
            evaluations=s.ncases,distinct_nontrivial=len(s.distinct),rule=rule or 'inputs replayed on the binary built from /repo and compared with the specification; distinct by (operation, input)',samples=s.samples[:6] or ['-'],notes=s.notes)
        if explanation: cov['explanation']=explanation
        os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
        json.dump(dict(property=s.pid,tier=s.tier,seed=s.seed,level=s.level,coverage=cov,wall_s=round(time.time()-s.t0,2)),open(os.path.join(VERIF,'evidence',s.pid+'.json'),'w'),indent=1,default=str)
        print('%s: %d obligations, %d discharged, %d refuted, %d unknown, %d units (%d outside reach), %d concrete evaluations, %.1fs'%(s.pid,cov['obligations'],cov['discharged'],len(bad),len(unk),len(un),len(unsup),s.ncases,time.time()-s.t0))
        sys.stdout.flush()
        return code
def crash_summary(er,rc):
    for l in er.split('\n'):
        if 'ERROR: AddressSanitizer' in l or 'runtime error:' in l or 'terminate called' in l:
            import re
            l=re.sub(r'0x[0-9a-f]+','0x..',l); l=re.sub(r'==\d+==','',l); return l.strip()[:200]
    return 'rc=%s %s'%(rc,er.strip()[-120:].replace('\n',' '))
def main(fn):
    """entry point of checks/<id>.py"""
    try: rc=bigstack(fn)
    except InfraError as e:
        print('INFRA: %s'%e); sys.stdout.flush(); os._exit(2) if False else sys.exit(2)
    sys.stdout.flush(); sys.exit(rc)
