"""Assumed contracts of the C library used by the time codes: gmtime/timegm/strftime/sprintf (calendar arithmetic itself is trusted)."""
import z3
from sym import *
import models
from exec import DeadPath
I64=z3.BitVecSort(64); I32=z3.BitVecSort(32)
FIELDS=['sec','min','hour','mday','mon','year','wday','yday','isdst']
def UT(kind,f): return z3.Function('%s_%s'%(kind,f),I64,I32)
def field(kind,f,t):
    """struct tm field of the instant t (seconds since 1970) in UTC ('utc') or local time"""
    t=bv(t,64)
    if kind=='utc':
        s=z3.Int2BV if False else None
        if f=='sec': return z3.Extract(31,0,smod(t,60))
        if f=='min': return z3.Extract(31,0,smod(sdivf(t,60),60))
        if f=='hour': return z3.Extract(31,0,smod(sdivf(t,3600),24))
        if f in('mday','mon','year','wday','yday'): return UT(kind,f)(sdivf(t,86400))
        if f=='isdst': return z3.BitVecVal(0,32)
    return UT(kind,f)(t)
def sdivf(t,n):
    # floor division
    n=z3.BitVecVal(n,64); return z3.If(t>=0,z3.UDiv(t,n),-1-z3.UDiv(-1-t,n))
def smod(t,n): return t-sdivf(t,n)*n
def fill_tm(vm,st,q,kind,t):
    for i,f in enumerate(FIELDS): vm.write(st,q.obj,off_add(q.off,4*i),4,field(kind,f,t))
    if kind=='utc':
        tt=bv(t,64); R=vm.__dict__.setdefault('_inrange',{}); L=[('sec',0,60),('min',0,59),('hour',0,23),('mon',0,11),('mday',1,31),('yday',0,365)]
        if vm.must(st,z3.And(tt>=-2208988800,tt<7258118400)): L.append(('year',0,300))
        for f,lo,hi in L: e=field(kind,f,t); R[e.get_id()]=(lo,hi,e)
def dig(v,k):
    """k-th decimal digit as a character; uninterpreted, a non-zero byte"""
    v=z3.simplify(v)
    return z3.Function('digit%d_%d'%(k,v.size()),v.sort(),z3.BitVecSort(8))(v)
def is_digit_term(x): return isinstance(x,z3.BitVecRef) and z3.is_app(x) and x.decl().name().startswith('digit')
def digits(v,n): return [dig(v,k) for k in reversed(range(n))]
def install(vm):
    A='gmtime, gmtime_r, timegm and strftime are the C library\'s UTC calendar (ranges of the fields; four digit years 1900-2200)'
    def time_at(vm,st,p):
        alts=vm.resolve(st,p)
        if len(alts)!=1: raise Unsupported('gmtime of a conditional pointer')
        q=alts[0][1]; vm.chk(st,True,q,8,'time read'); return vm.read(st,q.obj,q.off,8)
    def gm(kind):
        def h(vm,st,a,I):
            vm.assumptions.add(A); t=time_at(vm,st,a[0])
            if len(a)>1: q=models.ptr_conc(vm,st,a[1]); vm.chk(st,True,q,56,'tm')
            else:
                o=getattr(vm,'_tmobj',None)
                if o is None: o=vm._tmobj=Obj('static struct tm',56,'global')
                if o.id not in st.mem: st.mem[o.id]=Content(None,[Cells({})],st.tok)
                q=Ptr(o,0)
            fill_tm(vm,st,q,kind,t); return q
        return h
    for n in('gmtime','gmtime_r'): vm.models[n]=gm('utc')
    for n in('localtime','localtime_r'): vm.models[n]=gm('local')
    def mk(kind):
        F=z3.Function('instant_'+kind,*([I32]*6+[I64]))
        def h(vm,st,a,I):
            vm.assumptions.add(A); q=models.ptr_conc(vm,st,a[0]); vm.chk(st,True,q,56,'tm')
            return F(*[bv(vm.read(st,q.obj,off_add(q.off,4*i),4),32) for i in range(6)])
        return h
    vm.models['timegm']=mk('utc'); vm.models['mktime']=mk('local')
    def strftime(vm,st,a,I):
        vm.assumptions.add(A)
        fmt=models.cstr_bytes(vm,st,a[2])
        if fmt is None or not isinstance(a[1],int): raise Unsupported('strftime with a symbolic format')
        fmt=fmt.decode('latin1'); 
        for x,y in(('%F','%Y-%m-%d'),('%T','%H:%M:%S'),('%R','%H:%M')): fmt=fmt.replace(x,y)
        q=models.ptr_conc(vm,st,a[3]); g=lambda f:(vm.chk(st,True,Ptr(q.obj,off_add(q.off,4*FIELDS.index(f))),4,'tm field'),bv(vm.read(st,q.obj,off_add(q.off,4*FIELDS.index(f)),4),32))[1]
        out=[]; i=0
        def put(x,n,adj=0):
            v=x+adj if adj else x; r=getattr(vm,'_inrange',{}).get(x.get_id())
            if not(r and r[0]+adj>=0 and r[1]+adj<10**n) and not vm.must(st,z3.And(v>=0,v<10**n)): raise Unsupported('strftime field of unknown width')
            out.extend(digits(v,n))
        while i<len(fmt):
            if fmt[i]!='%': out.append(ord(fmt[i])); i+=1; continue
            c=fmt[i+1]; i+=2
            if c=='Y': put(g('year'),4,1900)
            elif c=='m': put(g('mon'),2,1)
            elif c=='d': put(g('mday'),2)
            elif c=='H': put(g('hour'),2)
            elif c=='M': put(g('min'),2)
            elif c=='S': put(g('sec'),2)
            elif c=='j': put(g('yday'),3,1)
            elif c=='%': out.append(37)
            else: raise Unsupported('strftime %%%s'%c)
        if len(out)+1>a[1]: return 0
        putbytes(vm,st,a[0],out+[0]); return len(out)
    vm.models['strftime']=strftime
    def putbytes(vm,st,p,bs):
        q=models.ptr_conc(vm,st,p); vm.chk(st,True,q,len(bs),'formatted output')
        for k,b in enumerate(bs): vm.write(st,q.obj,off_add(q.off,k),1,b)
    def printf(fmtix,sized):
        def h(vm,st,a,I):
            fmt=models.cstr_bytes(vm,st,a[fmtix])
            if fmt is None: raise Unsupported('printf with a symbolic format')
            vm.assumptions.add('sprintf("%0Nd") writes the decimal digits of its argument')
            return fmtouts(vm,st,a,fmt.decode('latin1'),0,fmtix+1,[],fmtix,sized)
        return h
    def fmtouts(vm,st,a,fmt,i,k,out,fmtix,sized):
        out=list(out)
        while i<len(fmt):
            if fmt[i]!='%': out.append(ord(fmt[i])); i+=1; continue
            if fmt[i+1]=='%': out.append(37); i+=2; continue
            j=i+1; zero=False
            while fmt[j] in '0 -+':
                if fmt[j]=='0': zero=True
                else: raise Unsupported('printf flag')
                j+=1
            w=0
            while fmt[j].isdigit(): w=w*10+int(fmt[j]); j+=1
            size=32
            while fmt[j] in 'lhzj':
                if fmt[j] in 'lzj': size=64
                j+=1
            conv=fmt[j]; j+=1
            if conv=='s':
                b=models.cstr_bytes(vm,st,a[k])
                if b is None or w: raise Unsupported('printf %s of a symbolic string')
                out+=list(b); i=j; k+=1; continue
            if conv not in 'diu': raise Unsupported('printf %'+conv)
            v=bv(a[k],size)
            res=[]; pad=48 if zero else 32
            maxd=10 if size==32 else 20
            rng=range(max(w,1) if zero and w else 1,maxd+1)
            if zero and w and vm.must(st,z3.ULT(v,10**w)): rng=[w]
            for n in rng:
                lo=0 if (n==1 or (zero and n==w)) else 10**(n-1)
                c=z3.And(z3.UGE(v,z3.BitVecVal(lo,size)),z3.ULE(v,z3.BitVecVal(min(10**n-1,(1<<(size-1))-1 if conv!='u' else (1<<size)-1),size)))
                if len(rng)>1 and not vm.feasible(st,c): continue
                d=digits(v,n); d=[pad]*(w-n)+d
                s2=st.fork(); s2.assume(c)
                res+=fmtouts(vm,s2,a,fmt,j,k+1,out+d,fmtix,sized)
            if conv!='u' and len(rng)>1:
                neg=v<0
                if vm.feasible(st,neg): raise Unsupported('printf of a value that may be negative')
            return res
        if sized:
            n=a[1]
            if not isinstance(n,int): raise Unsupported('snprintf with a symbolic size')
            putbytes(vm,st,a[0],(out[:n-1]+[0]) if n else [])
        else: putbytes(vm,st,a[0],out+[0])
        return [Outcome('ret',st,len(out))]
    vm.models['sprintf']=printf(1,False); vm.models['snprintf']=printf(2,True)
def nul_hook(v,s,q):
    """strlen through proved (non-)zero bytes"""
    if not(isinstance(q.obj.size,int) and isinstance(q.off,int)): return None
    for i in range(q.obj.size-q.off):
        x=v.read(s,q.obj,q.off+i,1)
        if isinstance(x,int):
            if x==0: return i
            continue
        if is_digit_term(x) or v.must(s,bv(x,8)!=0): continue
        return i if v.must(s,bv(x,8)==0) else None
