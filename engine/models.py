"""Assumed contracts of the C/C++ runtime: allocation, memory/string primitives, exceptions, libm, diagnostics.
Each model used in a run is recorded in vm.assumptions (-> trusted base in the evidence)."""
import re, z3
from sym import *
from exec import DeadPath
import llvmir

def model(vm,names,desc):
    def deco(fn):
        def h(vm_,st,args,I):
            vm_.assumptions.add(desc); return fn(vm_,st,args,I)
        for n in names: vm.models[n]=h
        return fn
    return deco
def rmodel(vm,rx,desc):
    def deco(fn):
        def h(vm_,st,args,I):
            r=fn(vm_,st,args,I)
            if r is not NotImplemented: vm_.assumptions.add(desc)
            return r
        vm.model_re.append((re.compile(rx),h)); return fn
    return deco
def throw(vm,st,tinfo,msg=None):
    o=vm.new(st,'exception',64,'heap')
    return Outcome('throw',st,ExcVal(Ptr(o,0),tinfo))
def ptr_conc(vm,st,p):
    alts=vm.resolve(st,p)
    if len(alts)!=1: raise Unsupported('model applied to a conditional pointer')
    q=alts[0][1]
    return q
def cstr_bytes(vm,st,p,maxn=4096):
    """python bytes when the C string is concrete, else None"""
    q=ptr_conc(vm,st,p); out=[]
    if not isinstance(q,Ptr) or q.obj is None or not isinstance(q.off,int): return None
    for i in range(maxn):
        if isinstance(q.obj.size,int) and q.off+i>=q.obj.size: return None
        v=vm.read(st,q.obj,q.off+i,1)
        if not isinstance(v,int): return None
        if v==0: return bytes(out)
        out.append(v)
    return None
def install(vm):
    # ---------------- allocation
    @model(vm,['_Znwm','_Znam','_ZnwmSt11align_val_t'],'operator new returns a fresh block of the requested size (allocation failure not modelled)')
    def new(vm,st,a,I):
        n=a[0]
        if isinstance(n,z3.BitVecRef): n=norm(z3.simplify(n))
        o=vm.new(st,'new',n,'heap'); o.meta['by']='new'
        vm.allocs=getattr(vm,'allocs',[]); vm.allocs.append(o)
        return Ptr(o,0)
    @model(vm,['malloc'],'malloc returns a fresh block (allocation failure not modelled)')
    def malloc(vm,st,a,I):
        o=vm.new(st,'malloc',a[0],'heap'); return Ptr(o,0)
    @model(vm,['calloc'],'calloc returns a fresh zeroed block (allocation failure not modelled)')
    def calloc(vm,st,a,I):
        n=a[0]*a[1] if isinstance(a[0],int) and isinstance(a[1],int) else norm(z3.simplify(bv(a[0],64)*bv(a[1],64)))
        o=vm.new(st,'calloc',n,'heap','zero'); return Ptr(o,0)
    def dele(vm,st,a,I): vm.free(st,a[0]); return None
    for n in('_ZdlPv','_ZdaPv','_ZdlPvm','_ZdaPvm','free','_ZdlPvSt11align_val_t','_ZdlPvmSt11align_val_t'):
        vm.models[n]=dele
    # ---------------- memory
    def mcpy(vm,st,a,I): 
        vm.memcpy(st,a[0],a[1],a[2]); return a[0]
    for n in('memcpy','memmove'): vm.models[n]=mcpy
    vm.model_re.append((re.compile(r'^llvm\.mem(cpy|move)'),lambda vm,st,a,I:(vm.memcpy(st,a[0],a[1],a[2]),None)[1]))
    vm.model_re.append((re.compile(r'^llvm\.memset'),lambda vm,st,a,I:(vm.memset(st,a[0],a[1],a[2]),None)[1]))
    def mset(vm,st,a,I): vm.memset(st,a[0],a[1],a[2]); return a[0]
    vm.models['memset']=mset
    vm.models['bzero']=lambda vm,st,a,I:(vm.memset(st,a[0],0,a[1]),None)[1]
    vm.model_re.append((re.compile(r'^llvm\.(lifetime|dbg|assume|donothing|var\.annotation|prefetch|experimental\.noalias)'),lambda vm,st,a,I:None))
    vm.model_re.append((re.compile(r'^llvm\.(stacksave)'),lambda vm,st,a,I:NULL))
    vm.model_re.append((re.compile(r'^llvm\.(stackrestore)'),lambda vm,st,a,I:None))
    vm.model_re.append((re.compile(r'^llvm\.expect'),lambda vm,st,a,I:a[0]))
    vm.model_re.append((re.compile(r'^llvm\.is\.constant'),lambda vm,st,a,I:False))
    vm.model_re.append((re.compile(r'^llvm\.objectsize'),lambda vm,st,a,I:MASK[64]))
    def minmax(vm,st,a,I):
        m=re.match(r'llvm\.(u|s)(max|min)',vm.callee); k=m.group(1)[0]+('gt' if m.group(2)=='max' else 'lt')
        class T: w=I.ty.w
        c=vm.icmp(st,k,a[0],a[1],T)
        return vite(c,a[0],a[1],I.ty.store)
    vm.model_re.append((re.compile(r'^llvm\.[us](max|min)\.'),minmax))
    def ovf(vm,st,a,I):
        m=re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)',vm.callee); sg,op,w=m.group(1),m.group(2),int(m.group(3))
        x,y=a
        e=(lambda v:z3.SignExt(w,bv(v,w))) if sg=='s' else (lambda v:z3.ZeroExt(w,bv(v,w)))
        X,Y=e(x),e(y); r={'add':X+Y,'sub':X-Y,'mul':X*Y}[op]; lo=z3.Extract(w-1,0,r)
        return [norm(z3.simplify(lo)),simp(e(lo)!=r)]
    vm.model_re.append((re.compile(r'^llvm\..*with\.overflow'),ovf))
    def llabs(vm,st,a,I):
        w=I.ty.w; x=a[0]
        if isinstance(x,int): v=signed(x,w); return abs(v)&MASK[w]
        return z3.If(x<0,-x,x)
    vm.model_re.append((re.compile(r'^llvm\.abs\.'),llabs))
    for n in('abs','labs','llabs'): vm.models[n]=llabs
    def bswap(vm,st,a,I):
        n=I.ty.store; return from_bytes(list(reversed(bytes_of(a[0],n))))
    vm.model_re.append((re.compile(r'^llvm\.bswap'),bswap))
    for n in('ntohl','htonl','ntohs','htons'): vm.models[n]=bswap
    def fpint(nm):
        def f(vm,st,a,I): return fmath(nm,a,I.ty.store)
        return f
    for nm in MATH1|MATH2:
        vm.model_re.append((re.compile(r'^llvm\.%s\.f'%nm),fpint(nm)))
        @model(vm,[nm,nm+'f'],'libm functions are pure (transcendental functions uninterpreted, the same in code and specification)')
        def mm(vm,st,a,I,nm=nm): return fmath(nm,[x if isinstance(x,float) else fpz(x,I.ty.store) for x in a],I.ty.store)
    vm.model_re.append((re.compile(r'^llvm\.fmuladd\.f'),lambda vm,st,a,I: fbin('fadd',fbin('fmul',a[0],a[1],I.ty.store),a[2],I.ty.store)))
    vm.model_re.append((re.compile(r'^llvm\.copysign'),lambda vm,st,a,I: copysign_(a,I.ty.store)))
    vm.model_re.append((re.compile(r'^llvm\.is\.fpclass'),lambda vm,st,a,I: fpclass(a[0],a[1],I)))
    vm.model_re.append((re.compile(r'^llvm\.trap'),lambda vm,st,a,I: (vm.oblige(st,FALSE,'trap at '+vm.here(),'memsafe'),[])[1]))
    for nm,f in(('__isnan',z3.fpIsNaN),('isnan',z3.fpIsNaN)):
        vm.models[nm]=lambda vm,st,a,I,f=f: z3.If(f(fpz(a[0],8)),z3.BitVecVal(1,32),z3.BitVecVal(0,32)) if not isinstance(a[0],float) else int(a[0]!=a[0])
    # ---------------- C strings
    @model(vm,['strlen'],'strlen/strcmp/memcmp as in ISO C')
    def strlen(vm,st,a,I):
        q=ptr_conc(vm,st,a[0])
        if q.obj is None: vm.fail_access(st,True,'strlen(NULL)'); raise DeadPath()
        b=cstr_bytes(vm,st,q)
        if b is not None: return len(b)
        hk=getattr(vm,'strlen_hook',None)
        if hk:
            r=hk(vm,st,q)
            if r is not None: return r
        # bounded object: first NUL, with an obligation that there is one
        if isinstance(q.obj.size,int) and isinstance(q.off,int) and q.obj.size-q.off<=128:
            n=q.obj.size-q.off; res=None; none=[]
            bs=[vm.read(st,q.obj,q.off+i,1) for i in range(n)]
            isz=[bv(b,8)==0 for b in bs]
            ok=Or(*isz)
            vm.oblige(st,ok,'string is NUL-terminated inside %s at %s'%(q.obj.name,vm.here()),'memsafe'); st.assume(zbool(ok))
            r=z3.BitVecVal(n-1,64)
            for i in reversed(range(n-1)): r=z3.If(isz[i],z3.BitVecVal(i,64),r)
            return norm(z3.simplify(r))
        raise Unsupported('strlen of symbolic string')
    @model(vm,['strcmp','strcoll'],'strlen/strcmp/memcmp as in ISO C')
    def strcmp(vm,st,a,I):
        x,y=cstr_bytes(vm,st,a[0]),cstr_bytes(vm,st,a[1])
        if x is not None and y is not None: return ((x>y)-(x<y))&MASK[32]
        raise Unsupported('strcmp of symbolic strings')
    @model(vm,['memcmp','bcmp'],'strlen/strcmp/memcmp as in ISO C')
    def memcmp(vm,st,a,I):
        n=a[2]
        if not isinstance(n,int):
            n=norm(z3.simplify(n))
            if not isinstance(n,int):
                hk=getattr(vm,'memcmp_hook',None)
                if hk: return hk(vm,st,a)
                raise Unsupported('memcmp of symbolic length')
        if n==0: return 0
        p,q=ptr_conc(vm,st,a[0]),ptr_conc(vm,st,a[1])
        vm.chk(st,True,p,n,'memcmp'); vm.chk(st,True,q,n,'memcmp')
        r=z3.BitVecVal(0,32)
        for i in reversed(range(n)):
            x,y=vm.read(st,p.obj,off_add(p.off,i),1),vm.read(st,q.obj,off_add(q.off,i),1)
            if isinstance(x,int) and isinstance(y,int):
                if x!=y: r=z3.BitVecVal(1 if x>y else MASK[32],32)
                continue
            X,Y=bv(x,8),bv(y,8)
            r=z3.If(X==Y,r,z3.If(z3.UGT(X,Y),z3.BitVecVal(1,32),z3.BitVecVal(MASK[32],32)))
        return norm(z3.simplify(r))
    @model(vm,['sscanf','__isoc23_sscanf','__isoc99_sscanf'],'sscanf: a %Nd conversion of N decimal digits yields their value (other inputs: unspecified value)')
    def sscanf(vm,st,a,I):
        fmt=cstr_bytes(vm,st,a[1])
        if fmt is None: raise Unsupported('sscanf with a symbolic format')
        src=ptr_conc(vm,st,a[0]); pos=0; i=0; k=2; ok=[]
        while i<len(fmt):
            if fmt[i]!=0x25:
                pos+=1; i+=1; continue
            j=i+1; n=0
            while chr(fmt[j]).isdigit(): n=n*10+fmt[j]-48; j+=1
            if chr(fmt[j])!='d' or not n: raise Unsupported('sscanf %r'%fmt)
            v=z3.BitVecVal(0,32)
            for q in range(n):
                p=vm.padd(src,pos+q); vm.chk(st,True,p,1,'sscanf'); c=bv(vm.read(st,p.obj,p.off,1),8)
                ok.append(z3.And(z3.UGE(c,48),z3.ULE(c,57))); v=v*10+z3.ZeroExt(24,c)-48
            pos+=n; dst=ptr_conc(vm,st,a[k]); k+=1
            vm.chk(st,True,dst,4,'sscanf target'); vm.write(st,dst.obj,dst.off,4,z3.If(And(*ok),v,fresh('scanf',32)))
            i=j+1
        return fresh('nconv',32)
    def disj(vm,st,a,I):
        t=ptr_conc(vm,st,a[0]); d=vm.read(st,t.obj,t.off,8); q=ptr_conc(vm,st,a[1])
        if not isptr(d): return NotImplemented
        ds=[x for _,x in vm.resolve(st,d)]
        return True if all(x.obj is not q.obj for x in ds) else NotImplemented
    rmodel(vm,r'^std::(__cxx11::)?basic_string<char.*>::_M_disjunct\(','std::string::_M_disjunct: pointers into different objects are disjoint')(disj)
    # ---------------- exceptions
    @model(vm,['__cxa_allocate_exception'],'C++ exception runtime')
    def alloc(vm,st,a,I):
        o=vm.new(st,'exc',a[0],'heap'); return Ptr(o,0)
    vm.models['__cxa_free_exception']=lambda vm,st,a,I:None
    def cthrow(vm,st,a,I):
        ti=a[1]; nm=ti.obj.name[1:] if isinstance(ti,Ptr) else ti.name
        return Outcome('throw',st,ExcVal(a[0],nm))
    vm.models['__cxa_throw']=cthrow
    def beginc(vm,st,a,I):
        e=getattr(a[0],'exc',None); st.exc=st.exc+(e,); return a[0] if not hasattr(a[0],'exc') else (Ptr(a[0].obj,0) if a[0].obj else Ptr(vm.new(st,'exc',64),0))
    vm.models['__cxa_begin_catch']=beginc
    def endc(vm,st,a,I): 
        st.exc=st.exc[:-1]; return None
    vm.models['__cxa_end_catch']=endc
    def rethrow(vm,st,a,I):
        if not st.exc: return Outcome('terminate',st,'rethrow without an active exception at '+vm.here())
        e=st.exc[-1]; st.exc=st.exc  # end_catch is executed by the cleanup pad
        return Outcome('throw',st,e)
    vm.models['__cxa_rethrow']=rethrow
    def term(vm,st,a,I): return Outcome('terminate',st,'terminate at '+vm.here())
    for n in('_ZSt9terminatev','__clang_call_terminate','abort','exit','__assert_fail','_ZSt10unexpectedv','_exit'): vm.models[n]=term
    vm.models['llvm.eh.typeid.for']=lambda vm,st,a,I: vm.typeid(a[0].obj.name[1:])
    vm.model_re.append((re.compile(r'^llvm\.eh\.typeid'),vm.models['llvm.eh.typeid.for']))
    for nm,ti in(('__throw_out_of_range','_ZTISt12out_of_range'),('__throw_length_error','_ZTISt12length_error'),('__throw_logic_error','_ZTISt11logic_error'),('__throw_bad_alloc','_ZTISt9bad_alloc'),('__throw_invalid_argument','_ZTISt16invalid_argument'),('__throw_out_of_range_fmt','_ZTISt12out_of_range'),('__throw_bad_array_new_length','_ZTISt9bad_alloc'),('__throw_bad_cast','_ZTISt8bad_cast'),('__throw_runtime_error','_ZTISt13runtime_error')):
        vm.model_re.append((re.compile(r'^std::%s\('%nm),lambda vm,st,a,I,ti=ti: throw(vm,st,ti)))
    vm.models['__cxa_throw_bad_array_new_length']=lambda vm,st,a,I: throw(vm,st,'_ZTISt9bad_alloc')
    rmodel(vm,r'^std::(runtime_error|logic_error|domain_error|out_of_range|invalid_argument|length_error|exception|range_error|overflow_error)::~?(runtime_error|logic_error|domain_error|out_of_range|invalid_argument|length_error|exception|range_error|overflow_error)\(','std exception constructors/destructors have no effect visible to the program')(lambda vm,st,a,I: None)
    # ---------------- guards for function statics, atexit
    def guard(vm,st,a,I):
        q=ptr_conc(vm,st,a[0]); v=vm.read(st,q.obj,q.off,1)
        if not isinstance(v,int): v=0
        return 0 if v&1 else 1
    vm.models['__cxa_guard_acquire']=guard
    def grel(vm,st,a,I):
        q=ptr_conc(vm,st,a[0]); vm.write(st,q.obj,q.off,1,1); return None
    vm.models['__cxa_guard_release']=grel
    vm.models['__cxa_guard_abort']=lambda vm,st,a,I: None
    vm.models['__cxa_atexit']=lambda vm,st,a,I: 0
    vm.models['atexit']=lambda vm,st,a,I: 0
    vm.models['__cxa_pure_virtual']=term
    # ---------------- diagnostics
    rmodel(vm,r'^std::(basic_)?ostream(<char, std::char_traits<char> ?>)?(&)? ?(std::operator<<|std::endl|std::flush)|^std::(basic_)?ostream(<char, std::char_traits<char> ?>)?::(operator<<|flush|put|write|~basic_ostream)|^std::basic_ostream<.*std::(operator<<|endl|flush|__ostream_insert)','formatted stream output has no effect on program state')(lambda vm,st,a,I: a[0] if I is None or I.ty.k=='ptr' else None)
    for n in('printf','fprintf','puts','fputs','perror','putchar','fputc','fflush','vfprintf'): vm.models[n]=lambda vm,st,a,I: 0
    vm.models['__errno_location']=lambda vm,st,a,I: errno_(vm,st)
def errno_(vm,st):
    o=getattr(vm,'_errno',None)
    if o is None: o=vm._errno=Obj('errno',4,'global')
    if o.id not in st.mem: st.mem[o.id]=Content(None,[Cells({0:(4,fresh('errno',32))})],st.tok)
    return Ptr(o,0)
def copysign_(a,n):
    x,y=a
    if isinstance(x,float) and isinstance(y,float): return math.copysign(x,y)
    X,Y=fpz(x,n),fpz(y,n); A=z3.fpAbs(X)
    return z3.If(z3.fpIsNegative(Y),z3.fpNeg(A),A)
def fpclass(x,mask,I):
    if isinstance(x,float):
        m=0
        if x!=x: m=3
        elif x in(math.inf,): m=0x200
        elif x==-math.inf: m=0x4
        elif x==0: m=0x60
        else: m=0x198
        return bool(m&mask)
    X=x if isinstance(x,z3.FPRef) else fpz(x,8); c=[]
    if mask&3: c.append(z3.fpIsNaN(X))
    if mask&0x204==0x204: c.append(z3.fpIsInf(X))
    elif mask&0x204: c.append(z3.And(z3.fpIsInf(X),z3.fpIsPositive(X) if mask&0x200 else z3.fpIsNegative(X)))
    if mask&0x60: c.append(z3.fpIsZero(X))
    if mask&0x108: c.append(z3.fpIsNormal(X))
    if mask&0x90: c.append(z3.fpIsSubnormal(X))
    return simp(z3.Or(*c))
