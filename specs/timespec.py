"""C06: time codes. CDS day segmented codes, CUC, generalized time: decoding, instants, calendar rendering."""
import re, os, build, layout, records, contracts, libc
SRC='msat/hrit/MSG_time_cds.cpp'; EXT=('-include',build.VERIF+'/include/inline_string.h')
INC='#include <msat/hrit/MSG_time_cds.h>\n'+''.join('static int z%d=sizeof(%s);\n'%(i,c) for i,c in enumerate(['MSG_time_cds_short','MSG_time_cds','MSG_time_cds_expanded','MSG_time_cuc','MSG_time_generalized']))
LEN={'MSG_time_cds_short':6,'MSG_time_cds':8,'MSG_time_cds_expanded':10,'MSG_time_cuc':7,'MSG_time_generalized':15}
_lay=[]
def lay():
    if not _lay: _lay.append(layout.dump(INC))
    return _lay[0]
def size(cls): return lay()[cls][0]
def fns(prog,cls,meth):
    """non-overridden and inherited definitions, const overloads included"""
    for c in (cls,'MSG_time_cds_short'):
        l=[n for n in prog.funcs if not prog.funcs[n].decl and re.match(r'%s::%s(\[abi:cxx11\])?\('%(c,meth),prog.dem.get(n,''))]
        if l: return l
        if cls in('MSG_time_cuc','MSG_time_generalized'): return l
    return []
def begin(U,cls):
    import z3
    from sym import State,Ptr
    from common import model_bytes
    import random
    prog=U.prog([build.emit_ir(SRC,EXT),build.emit_ir('msat/hrit/MSG_machine.cpp')]); vm=U.vm(prog); contracts.machine(vm,prog); libc.install(vm); vm.strlen_hook=libc.nul_hook
    st=State(); arr=z3.Array('code',z3.BitVecSort(64),z3.BitVecSort(8)); b=vm.buf(st,'code',LEN[cls],arr=arr); rnd=random.Random(5)
    U.on_model=lambda ev,o:(cls,model_bytes(ev,o,arr,LEN[cls],rnd))
    this=vm.new(st,'this',size(cls),'heap'); 
    rd=fns(prog,cls,'read_from'); ct=[n for n in prog.funcs if prog.dem.get(n,'')=='%s::%s()'%(cls,cls) and not prog.funcs[n].decl]
    outs=[]
    for o in U.rets(vm,vm.call_fn(prog.funcs[ct[0]],[Ptr(this,0)],st),what=cls+'()'):
        outs+=U.rets(vm,vm.call_fn(prog.funcs[rd[0]],[Ptr(this,0),Ptr(b,0)],o.st),what=cls+'::read_from')
    return prog,vm,arr,this,outs
def B(arr,*ix):
    import z3
    s=[z3.Select(arr,z3.BitVecVal(i,64)) for i in ix]
    return z3.Concat(*s) if len(s)>1 else s[0]
def Z(e):
    import z3
    return z3.ZeroExt(64-e.size(),e)
def instant(arr):
    import z3
    return Z(B(arr,0,1))*86400+z3.UDiv(Z(B(arr,2,3,4,5)),z3.BitVecVal(1000,64))+z3.BitVecVal(-378691200,64)
def msecs(arr):
    import z3
    return z3.URem(Z(B(arr,2,3,4,5)),z3.BitVecVal(1000,64))
def unit_fields(cls):
    """accessors after decoding: the values encoded, and the documented number of bytes is consumed"""
    def fn(U):
        import z3
        from sym import Ptr,bv
        prog,vm,arr,this,outs=begin(U,cls)
        want={'get_day_from_epoch':(B(arr,0,1),16),'get_msec_in_day':(B(arr,2,3,4,5),32),'get_unixtime':(instant(arr),64)}
        if cls!='MSG_time_cds_short': want['get_microsecs']=(B(arr,6,7),16)
        if cls=='MSG_time_cds_expanded': want['get_nanosecs']=(B(arr,8,9),16)
        for o in outs:
            if U.equal(vm,o.st,o.val,LEN[cls],'read_from consumes %d bytes'%LEN[cls],64): U.ok('read_from consumes %d bytes'%LEN[cls])
            for m,(w,n) in want.items():
                l=fns(prog,cls,m)
                if not l: U.notes.append('no %s::%s'%(cls,m))
                for f in l:
                    for p in U.rets(vm,vm.call_fn(prog.funcs[f],[Ptr(this,0)],o.st.fork()),what=m):
                        if U.equal(vm,p.st,p.val,w,'%s::%s() is the value of the time code'%(cls,m),n): U.ok(m)
            for f in fns(prog,cls,'get_timestruct'):
                for p in U.rets(vm,vm.call_fn(prog.funcs[f],[Ptr(this,0)],o.st.fork()),what='get_timestruct'):
                    for i,fl in enumerate(libc.FIELDS[:6]):
                        if U.equal(vm,p.st,vm.read(p.st,p.val.obj,4*i,4),libc.field('utc',fl,instant(arr)),'get_timestruct()->tm_%s is that of the UTC instant'%fl,32): U.ok('get_timestruct')
    return fn
def unit_text(cls,meth='get_timestring',nd=(3,3)):
    """calendar text: YYYY-MM-DD hh:mm:ss +mmm[.uuu[nnn]] msecs of the UTC instant, for every code whose
    micro- and nanosecond fields have nd decimal digits (3 in valid codes; up to 5 fit the fields)"""
    def fn(U):
        import z3
        from sym import Ptr,bv,Unsupported
        prog,vm,arr,this,outs=begin(U,cls)
        for o in outs:
            for k,n in zip(((6,7),(8,9)),nd):
                if k[1]<LEN[cls]:
                    v=z3.ZeroExt(16,B(arr,*k)); o.st.assume(z3.And(z3.ULT(v,10**n),z3.UGE(v,0 if n==3 else 10**(n-1))))
        fs=fns(prog,cls,meth)
        if not fs and meth=='get_timestring': raise Unsupported('no %s::%s'%(cls,meth))
        for k,f in enumerate(fs):
            for o in outs:
                st=o.st.fork(); ret=vm.new(st,'text',32,'stack')
                sret=meth=='get_timestring'
                for p in U.rets(vm,vm.call_fn(prog.funcs[f],([Ptr(ret,0)] if sret else [])+[Ptr(this,0)],st),what=meth):
                    s=p.st; t=instant(arr); g=lambda n: libc.field('utc',n,t)
                    us=[]
                    if cls!='MSG_time_cds_short':
                        v=z3.ZeroExt(16,B(arr,6,7)); n=nd[0]; us=[46]+libc.digits(v,n)
                    if cls=='MSG_time_cds_expanded':
                        v=z3.ZeroExt(16,B(arr,8,9)); n=nd[1]; us+=libc.digits(v,n)
                    c=lambda x: [ord(q) for q in x]
                    want=libc.digits(g('year')+1900,4)+c('-')+libc.digits(g('mon')+1,2)+c('-')+libc.digits(g('mday'),2)+c(' ')+libc.digits(g('hour'),2)+c(':')+libc.digits(g('min'),2)+c(':')+libc.digits(g('sec'),2)+c(' +')+libc.digits(z3.Extract(31,0,msecs(arr)),3)+us+c(' msecs')
                    if sret: q=vm.read(s,ret,0,8); ln=vm.read(s,ret,8,8); vm.oblige(s,bv(ln,64)==len(want),'the text has %d characters'%len(want))
                    else: q=p.val; want=want+[0]
                    q=vm.resolve(s,q)[0][1]
                    if not vm.chk(s,True,q,len(want),'text handed out'): continue
                    for i,w in enumerate(want):
                        if U.equal(vm,s,vm.read(s,q.obj,q.off+i,1),w,'%s::%s character %d'%(cls,meth,i),8): U.ok('%s character'%meth)
    return fn
def unit_cuc(U):
    """CUC: four coarse octets in seconds, three fine octets in binary fractions; the octets are printed in order"""
    import z3
    from sym import Ptr,bv,fpz,F64
    prog,vm,arr,this,outs=begin(U,'MSG_time_cuc')
    for o in outs:
        if U.equal(vm,o.st,o.val,7,'read_from consumes 7 bytes',64): U.ok('read_from consumes 7 bytes')
        fs=fns(prog,'MSG_time_cuc','get_time_cuc_r8')
        for f in fs:
            for p in U.rets(vm,vm.call_fn(prog.funcs[f],[Ptr(this,0)],o.st.fork()),what='get_time_cuc_r8'):
                w=None
                for k in range(7):
                    x=z3.fpSignedToFP(z3.RNE(),z3.ZeroExt(24,B(arr,k)),F64); x=z3.fpMul(z3.RNE(),z3.FPVal(256.0**(3-k),F64),x); w=x if w is None else z3.fpAdd(z3.RNE(),w,x)
                if U.equal(vm,p.st,p.val,w,'the CUC value is the sum of its octets weighted by powers of 256',64): U.ok('CUC value')
        for m,a,b in(('get_coarse_time',0,4),('get_fine_time',4,7)):
            for f in fns(prog,'MSG_time_cuc',m):
                st=o.st.fork(); ret=vm.new(st,'text',32,'stack')
                for p in U.rets(vm,vm.call_fn(prog.funcs[f],[Ptr(ret,0),Ptr(this,0)],st),what=m):
                    s=p.st; want=[]
                    for k in range(a,b): want+=([32] if want else [])+libc.digits(z3.ZeroExt(24,B(arr,k)),3)
                    vm.oblige(s,bv(vm.read(s,ret,8,8),64)==len(want),m+' length'); q=vm.read(s,ret,0,8)
                    for i,w in enumerate(want):
                        if U.equal(vm,s,vm.read(s,q.obj,q.off+i,1),w,'%s character %d'%(m,i),8): U.ok(m)
def unit_gen(U):
    """YYYYMMDDhhmmssZ: fields, instant (UTC)"""
    import z3
    from sym import Ptr,bv
    prog,vm,arr,this,outs=begin(U,'MSG_time_generalized')
    isd=z3.And(*[z3.And(z3.UGE(B(arr,i),48),z3.ULE(B(arr,i),57)) for i in range(14)])
    spec=[]
    for m,o_,w,adj in records.GT:
        v=z3.BitVecVal(0,32)
        for i in range(o_,o_+w): v=v*10+z3.ZeroExt(24,B(arr,i))-48
        spec.append(v+adj)
    order=['tm_sec','tm_min','tm_hour','tm_mday','tm_mon','tm_year']; byn={m:v for (m,*_),v in zip(records.GT,spec)}
    F=z3.Function('instant_utc',*([libc.I32]*6+[libc.I64]))
    for o in outs:
        if U.equal(vm,o.st,o.val,15,'read_from consumes 15 bytes',64): U.ok('read_from consumes 15 bytes')
        st=o.st.fork(); st.assume(isd)
        for f in fns(prog,'MSG_time_generalized','get_unixtime'):
            for p in U.rets(vm,vm.call_fn(prog.funcs[f],[Ptr(this,0)],st.fork()),what='get_unixtime'): vm.oblige(p.st,bv(p.val,64)==F(*[byn[m] for m in order]),'the instant is the UTC time of the fields')
        for f in fns(prog,'MSG_time_generalized','get_timestruct'):
            for p in U.rets(vm,vm.call_fn(prog.funcs[f],[Ptr(this,0)],st.fork()),what='get_timestruct'):
                for i,m in enumerate(order): vm.oblige(p.st,bv(vm.read(p.st,p.val.obj,off(p.val,4*i),4),32)==byn[m],'%s is that of the code'%m)
        st.assume(z3.And(*[z3.And(byn[m]>=lo,byn[m]<=hi) for m,lo,hi in(('tm_year',-1900,8099),('tm_mon',0,11),('tm_mday',1,31),('tm_hour',0,23),('tm_min',0,59),('tm_sec',0,60))]))
        for meth in('get_timestring','get_timechar'):
            for f in fns(prog,'MSG_time_generalized',meth):
                s0=st.fork(); sret=meth=='get_timestring'; ret=vm.new(s0,'text',32,'stack')
                for p in U.rets(vm,vm.call_fn(prog.funcs[f],([Ptr(ret,0)] if sret else [])+[Ptr(this,0)],s0),what=meth):
                    s=p.st; C=lambda x:[ord(x)]
                    g=lambda m,a,n: libc.digits(byn[m]+a,n); want=g('tm_year',1900,4)+C('-')+g('tm_mon',1,2)+C('-')+g('tm_mday',0,2)+C(' ')+g('tm_hour',0,2)+C(':')+g('tm_min',0,2)+C(':')+g('tm_sec',0,2)
                    q=vm.resolve(s,vm.read(s,ret,0,8) if sret else p.val)[0][1]
                    if sret: vm.oblige(s,bv(vm.read(s,ret,8,8),64)==19,'the text has 19 characters')
                    else: want=want+[0]
                    if not vm.chk(s,True,q,len(want),'text handed out'): continue
                    for i,w in enumerate(want): vm.oblige(s,bv(vm.read(s,q.obj,q.off+i,1),8)==w,'%s character %d'%(meth,i))
def off(p,k):
    from sym import off_add
    return off_add(p.off,k)
# ------------------------------------------------------------------ concrete oracle
def oracle(cls,b):
    """lines the harness prints for the code b; None parts are not compared"""
    import datetime, calendar
    be=lambda o,n:int.from_bytes(b[o:o+n],'big')
    if cls=='MSG_time_cuc':
        from fractions import Fraction
        v=float(sum(Fraction(256)**(3-k)*b[k] for k in range(7)))
        return '7 %r %s %s'%(v,'_'.join('%03d'%x for x in b[:4]),'_'.join('%03d'%x for x in b[4:7]))
    if cls=='MSG_time_generalized':
        y,m,d,H,M,S=[int(b[i:j]) for i,j in((0,4),(4,6),(6,8),(8,10),(10,12),(12,14))]
        t=calendar.timegm((y,m,d,H,M,S)); tx='%04d-%02d-%02d_%02d:%02d:%02d'%(y,m,d,H,M,S)
        return '15 %d %s %s'%(t,tx,tx)
    d,ms=be(0,2),be(2,4); t=d*86400+ms//1000-378691200; dt=datetime.datetime(1970,1,1)+datetime.timedelta(seconds=t)
    us=''
    if cls!='MSG_time_cds_short': us='.%03d'%be(6,2)
    if cls=='MSG_time_cds_expanded': us+='%03d'%be(8,2)
    tx=dt.strftime('%Y-%m-%d_%H:%M:%S_+')+'%03d%s_msecs'%(ms%1000,us)
    return '%d %d %d %d %s %s %s %s'%(LEN[cls],d,ms,t,us.replace('.','') and '%d'%be(6,2) or '-','%d'%be(8,2) if cls=='MSG_time_cds_expanded' else '-',tx,dt.strftime('%Y,%m,%d,%H,%M,%S'))
