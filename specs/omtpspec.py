"""OpenMTP-IDS: byte-order primitives, headers, scan lines, records, files (C14) and line selection (C15)."""
import os, re, build, layout
D='msat/omtp-ids/'
INC='#include <msat/omtp-ids/OpenMTP-IDS.hh>\nstatic int z=sizeof(OpenMTP_IDS)+sizeof(FileHeader)+sizeof(RecordHeader)+sizeof(LineHeader)+sizeof(ScanLine)+sizeof(Record);'
FILE=[('fortran',-2),'no_records','year','julian_day','hour','minute','process_year','process_julian_day','process_hour','process_minute','no_channels','vis_id','wv_id','ir_id',('satellite',-8),'satellite_id','record_length','no_vis_average','no_wv_average','no_ir_average','averaging_type','sample_interval','ir_calibration','wv_calibration','fine_adjustment','ir_space_count','wv_space_count']
REC=[('fortran',-2),'record_header_length','no_scanlines','record_length','zero']
LINE=['length','line','start','no_pixels','channel_id','quality','pad[0]','pad[1]']
_l=[]
def lay():
    if not _l: _l.append(layout.dump(INC))
    return _l[0]
def moff(cls,m):
    """offset of a member"""
    from sym import Unsupported
    k=re.match(r'(\w+)(?:\[(\d)\])?$',m)
    for l in lay()[cls][1]:
        if l[6]=='m_'+k.group(1) or l[3]=='m_'+k.group(1) and l[0]==1: return l[1]+4*int(k.group(2) or 0)
    raise Unsupported('%s has no member m_%s on this tree'%(cls,m))
def table(tab):
    """(member, file offset, width, is text)"""
    o=0; r=[]
    for t in tab:
        n,w,tx=(t[0],-t[1],True) if isinstance(t,tuple) else (t,2,False)
        r.append((n,o,w,tx)); o+=w
    return r,o
# ---------------------------------------------------------------- streams by contract
class Streams:
    """input: the bytes of an object, output: appended to another one; positions and the state of the stream live in memory"""
    def __init__(s,vm,prog,st,src=None,n=None):
        import z3, contracts
        from sym import Ptr
        s.vm=vm; s.src=src; s.n=n; s.exact=None; s.ctl=vm.new(st,'streamctl',64,'heap','zero',const=False); s.sink=vm.new(st,'sink',1<<40,'heap','zero',const=False)
        s.i=contracts.fake_stream(vm,st,'istream'); s.o=contracts.fake_stream(vm,st,'ostream')
        for nm,d in prog.dem.items():
            if re.match(r'std::(istream|basic_istream<char.*?>)::get\(\)$',d): vm.contracts[nm]=s.get
            elif re.match(r'std::(istream|basic_istream<char.*?>)::read\(char\*, long\)$',d): vm.contracts[nm]=s.read
            elif re.match(r'std::(ostream|basic_ostream<char.*?>)::put\(char\)$',d): vm.contracts[nm]=s.put
            elif re.match(r'std::(ostream|basic_ostream<char.*?>)::write\(char const\*, long\)$',d): vm.contracts[nm]=s.write
            elif re.match(r'std::(ios|basic_ios<char.*?>)::good\(\) const$',d): vm.contracts[nm]=lambda vm_,st_,a,I: s.state(st_)==0
            elif re.match(r'std::(ios|basic_ios<char.*?>)::fail\(\) const$|std::(ios|basic_ios<char.*?>)::operator!\(\) const$',d): vm.contracts[nm]=lambda vm_,st_,a,I: (s.state(st_)&5)!=0
            elif re.match(r'std::(ios|basic_ios<char.*?>)::operator bool\(\) const$',d): vm.contracts[nm]=lambda vm_,st_,a,I: (s.state(st_)&5)==0
            elif re.match(r'std::(ios|basic_ios<char.*?>)::setstate\(',d): vm.contracts[nm]=s.setstate
            elif d.startswith('std::operator|(std::_Ios_Iostate'): pass
        vm.assumptions.add('std::istream::get/read deliver the next bytes of the stream or set its failure state; std::ostream::put/write append (no write errors)')
    def state(s,st):
        from sym import bv
        return bv(s.vm.read(st,s.ctl,8,4),32)
    def pos(s,st):
        from sym import bv
        return bv(s.vm.read(st,s.ctl,0,8),64)
    def opos(s,st):
        from sym import bv
        return bv(s.vm.read(st,s.ctl,16,8),64)
    def setpos(s,st,v):
        import z3
        from sym import norm
        s.vm.write(st,s.ctl,0,8,norm(z3.simplify(v)))
    def setopos(s,st,v):
        import z3
        from sym import norm
        s.vm.write(st,s.ctl,16,8,norm(z3.simplify(v)))
    def fail(s,st):
        import z3
        from sym import norm
        s.vm.write(st,s.ctl,8,4,norm(z3.simplify(s.state(st)|6)))
    def setstate(s,vm,st,a,I):
        import z3
        from sym import bv,norm
        vm.write(st,s.ctl,8,4,norm(z3.simplify(s.state(st)|bv(a[1],32)))); return None
    def get(s,vm,st,a,I):
        import z3
        from sym import bv,norm,Unsupported,Outcome,Ptr,fresh
        if s.src is None: raise Unsupported('input expected')
        if s.exact is not None:
            # the bytes of the record, and no more, may be consumed
            vm.oblige(st,z3.And(s.state(st)==0,z3.ULT(s.pos(st),s.exact)),'no byte beyond the record is consumed'); p=s.pos(st); v=bv(vm.read(st,s.src,norm(z3.simplify(p)),1),8); s.setpos(st,p+1); return z3.simplify(z3.ZeroExt(24,v))
        p=s.pos(st); ok=z3.And(s.state(st)==0,z3.ULT(p,s.n) if not isinstance(s.n,int) else z3.ULT(p,z3.BitVecVal(s.n,64)))
        def good(t):
            v=bv(vm.read(t,s.src,norm(z3.simplify(p)),1),8); s.setpos(t,p+1); return z3.simplify(z3.ZeroExt(24,v))
        if vm.must(st,ok): return good(st)
        if vm.must(st,z3.Not(ok)): s.fail(st); return fresh('eof',32)
        e=st.fork(); e.assume(z3.Not(ok)); st.assume(ok); v=good(st); s.fail(e)
        return [Outcome('ret',st,v),Outcome('ret',e,fresh('eof',32))]
    def read(s,vm,st,a,I):
        import z3
        from sym import bv,norm,Unsupported,Ptr,fresh
        n=a[2]
        if not isinstance(n,int): raise Unsupported('block read of unknown size')
        p=s.pos(st); N=s.n if not isinstance(s.n,int) else z3.BitVecVal(s.n,64); ok=z3.And(s.state(st)==0,z3.ULE(p+n,N)); q=vm.resolve(st,a[1])[0][1]
        if not vm.chk(st,True,q,n,'read into'): from exec import DeadPath; raise DeadPath()
        if vm.must(st,ok):
            for k in range(n): vm.write(st,q.obj,off(q.off,k),1,vm.read(st,s.src,norm(z3.simplify(p+k)),1))
            s.setpos(st,p+n)
        elif vm.must(st,z3.Not(ok)):
            for k in range(n): vm.write(st,q.obj,off(q.off,k),1,fresh('partial',8))
            s.fail(st)
        else: raise Unsupported('block read at an unknown distance from the end')
        return a[0]
    def put(s,vm,st,a,I):
        import z3
        from sym import norm
        p=s.opos(st); vm.write(st,s.sink,norm(z3.simplify(p)),1,a[1]); s.setopos(st,p+1); return a[0]
    def write(s,vm,st,a,I):
        import z3
        from sym import norm,Unsupported
        n=a[2]
        if not isinstance(n,int): raise Unsupported('block write of unknown size')
        q=vm.resolve(st,a[1])[0][1]
        if not vm.chk(st,True,q,n,'written out'): from exec import DeadPath; raise DeadPath()
        p=s.opos(st)
        for k in range(n): vm.write(st,s.sink,norm(z3.simplify(p+k)),1,vm.read(st,q.obj,off(q.off,k),1))
        s.setopos(st,p+n); return a[0]
def off(o,k):
    import z3
    from sym import norm,bv
    return o+k if isinstance(o,int) else norm(z3.simplify(bv(o,64)+k))
def fn(prog,rx):
    from sym import Unsupported
    l=[n for n,f in prog.funcs.items() if not f.decl and re.match(rx,prog.dem.get(n,''))]
    if not l: raise Unsupported('no function %s on this tree'%rx)
    return prog.funcs[l[0]]
OUT=lambda c:r'operator<<\(std::(ostream|basic_ostream<char.*>)&, %s const&\)'%c
IN=lambda c:r'operator>>\(std::(istream|basic_istream<char.*>)&, %s&\)'%c
# ---------------------------------------------------------------- byte-order primitives
def unit_prim(order,n,k):
    """write n-byte primitive with k bytes, then read it back: the low k bytes, in the documented order"""
    def f(U):
        import z3
        from sym import State,bv,norm
        prog=U.prog([build.emit_ir(D+'ByteSex.cc',('-DDSM_64BIT',) if n==8 else ())]); vm=U.vm(prog); st=State(); S=Streams(vm,prog,st); u=z3.BitVec('u',8*n); U.on_model=lambda ev,ob:('prim',order,n,k,ev(u).as_long())
        w=fn(prog,r'ByteSex::%s::write%d\('%(order,n)); r=fn(prog,r'ByteSex::%s::read%d\('%(order,n))
        for o in U.rets(vm,vm.call_fn(w,[S.o,u,k],st),what='write%d'%n):
            s=o.st; U.result('%d bytes are written'%k,S.opos(s).eq(z3.BitVecVal(k,64)))
            for i in range(k):
                sh=8*(k-1-i) if order=='big' else 8*i
                if U.equal(vm,s,vm.read(s,S.sink,i,1),z3.Extract(sh+7,sh,u),'byte %d written is byte %d of the value'%(i,sh//8),8): U.ok('byte')
            S.src=S.sink; S.n=k
            for q in U.rets(vm,vm.call_fn(r,[S.i,k],s),what='read%d'%n):
                U.result('reading consumes the bytes written',S.pos(q.st).eq(z3.BitVecVal(k,64)) and z3.is_true(z3.simplify(S.state(q.st)==0)))
                want=u if k==n else z3.ZeroExt(8*(n-k),z3.Extract(8*k-1,0,u)) if k else z3.BitVecVal(0,8*n)
                if U.equal(vm,q.st,q.val,want,'the value read is the value written',8*n): U.ok('round trip')
    return f
# ---------------------------------------------------------------- headers
HEAD={'FileHeader':FILE,'RecordHeader':REC,'LineHeader':LINE}
def modules(U): return U.prog([build.emit_ir(D+x) for x in('ByteSex.cc','FileHeader.cc','RecordHeader.cc','LineHeader.cc')])
def arbitrary(vm,st,cls,name):
    """an object of cls with the value of each 16-bit field in range -> (object, {member: value})"""
    import z3
    from sym import bv
    o=vm.new(st,name,lay()[cls][0],'heap',z3.Array(name,z3.BitVecSort(64),z3.BitVecSort(8)),const=False); v={}
    for m,fo,w,tx in table(HEAD[cls])[0]:
        if tx: v[m]=[bv(vm.read(st,o,moff(cls,m)+i,1),8) for i in range(w)]
        else: v[m]=z3.BitVec('%s_%s'%(name,m),16); vm.write(st,o,moff(cls,m),4,z3.ZeroExt(16,v[m]))
    return o,v
def tail(cls,v,n):
    """bytes that follow the fields"""
    import z3
    if cls!='FileHeader': return z3.BitVecVal(0,64)
    L=z3.ZeroExt(48,v['record_length'])+2
    return z3.If(z3.UGT(L,n),L-n,z3.BitVecVal(0,64))
def unit_write(cls):
    def f(U):
        import z3
        from sym import State,Ptr,bv,norm
        prog=modules(U); vm=U.vm(prog); st=State(); S=Streams(vm,prog,st); o,v=arbitrary(vm,st,cls,'h'); T,n=table(HEAD[cls]); p0=z3.BitVec('p0',64); st.assume(z3.ULE(p0,1<<32)); S.setopos(st,p0)
        U.on_model=lambda ev,ob:('head',cls,{m:([ev(x).as_long() for x in y] if isinstance(y,list) else ev(y).as_long()) for m,y in v.items()})
        for r in U.rets(vm,vm.call_fn(fn(prog,OUT(cls)),[S.o,Ptr(o,0)],st),what='operator<<'):
            s=r.st
            for m,fo,w,tx in T:
                for i in range(w):
                    want=v[m][i] if tx else z3.Extract(15-8*i,8-8*i,v[m])
                    if U.equal(vm,s,vm.read(s,S.sink,norm(z3.simplify(p0+fo+i)),1),want,'%s is written at byte %d, most significant byte first'%(m,fo),8): U.ok('field')
            t=tail(cls,v,n); vm.oblige(s,S.opos(s)==p0+n+t,'the length written is that of the record')
            if cls=='FileHeader':
                k=z3.BitVec('k',64); x=s.fork(); x.assume(z3.ULT(k,t)); vm.oblige(x,bv(vm.read(x,S.sink,norm(z3.simplify(p0+n+k)),1),8)==0,'the rest of the first record is zero')
    return f
def unit_read(cls):
    def f(U):
        import z3
        from sym import State,Ptr,bv,norm
        prog=modules(U); vm=U.vm(prog); st=State(); N=z3.BitVec('N',64); p0=z3.BitVec('p0',64); st.assume(z3.And(z3.ULE(p0,1<<32),z3.ULE(N,1<<33))); arr=z3.Array('in',z3.BitVecSort(64),z3.BitVecSort(8)); src=vm.new(st,'in',N,'heap',arr)
        S=Streams(vm,prog,st,src,N); S.setpos(st,p0); T,n=table(HEAD[cls]); o=vm.new(st,'h',lay()[cls][0],'heap',z3.Array('h',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
        B=lambda i:z3.Select(arr,z3.simplify(p0+i)); v={m:[B(fo+i) for i in range(w)] if tx else z3.Concat(B(fo),B(fo+1)) for m,fo,w,tx in T}
        t=tail(cls,v,n); st.assume(z3.ULE(p0+n+t,N)); S.exact=p0+n+t
        for r in U.rets(vm,vm.call_fn(fn(prog,IN(cls)),[S.i,Ptr(o,0)],st),what='operator>>'):
            s=r.st
            for m,fo,w,tx in T:
                if tx:
                    for i in range(w):
                        if U.equal(vm,s,vm.read(s,o,moff(cls,m)+i,1),v[m][i],'%s is read from bytes %d..'%(m,fo),8): U.ok('field')
                    if m=='satellite': vm.oblige(s,bv(vm.read(s,o,moff(cls,m)+w,1),8)==0,'the satellite name is terminated')
                elif U.equal(vm,s,vm.read(s,o,moff(cls,m),4),z3.ZeroExt(16,v[m]),'%s is the big-endian number at byte %d'%(m,fo),32): U.ok('field')
            vm.oblige(s,S.pos(s)==p0+n+t,'reading consumes exactly the bytes of the record')
            bad=z3.ULT(z3.ZeroExt(48,v['record_length'])+2,n) if cls=='FileHeader' else z3.BoolVal(False)
            vm.oblige(s,S.state(s)==z3.If(bad,z3.BitVecVal(4,32),z3.BitVecVal(0,32)),'the stream is left good, except after a record length that cannot hold the header')
    return f
def unit_truncated(cls):
    """a stream that ends inside the fields leaves the failure visible, whatever byte it ends at"""
    def f(U):
        import z3
        from sym import State,Ptr
        T,n=table(HEAD[cls]); ok=0; prog=modules(U)
        for N in range(n):
            vm=U.vm(prog); st=State(); src=vm.new(st,'in',N,'heap',z3.Array('in',z3.BitVecSort(64),z3.BitVecSort(8))); S=Streams(vm,prog,st,src,N); o=vm.new(st,'h',lay()[cls][0],'heap','zero',const=False)
            for r in U.rets(vm,vm.call_fn(fn(prog,IN(cls)),[S.i,Ptr(o,0)],st),what='operator>>'): vm.oblige(r.st,(S.state(r.st)&4)!=0,'a %s cut at byte %d is reported'%(cls,N))
    return f
def unit_default(cls):
    def f(U):
        import z3
        from sym import State,Ptr,bv
        prog=modules(U); vm=U.vm(prog); st=State(); o=vm.new(st,'h',lay()[cls][0],'heap',z3.Array('h',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
        for r in U.rets(vm,vm.call_fn(fn(prog,r'%s::%s\(\)'%(cls,cls)),[Ptr(o,0)],st),what='constructor'):
            for m,fo,w,tx in table(HEAD[cls])[0]:
                if tx:
                    want=b'\0\1' if m=='fortran' else b'METEOSAT'
                    for i in range(w): vm.oblige(r.st,bv(vm.read(r.st,o,moff(cls,m)+i,1),8)==want[i],'a new %s has the standard %s'%(cls,m))
                else: vm.oblige(r.st,bv(vm.read(r.st,o,moff(cls,m),4),32)==(8 if m=='record_header_length' else 0),'a new %s has no %s'%(cls,m))
    return f
# ---------------------------------------------------------------- accessors
def unit_access(cls):
    """each setter changes its field, to the value given, and no other; each getter returns its field"""
    def f(U):
        import z3
        from sym import State,Ptr,bv,Unsupported
        prog=U.prog([build.emit_ir(os.path.join(build.VERIF,'harness','omtp_accessors.cpp'))]+[build.emit_ir(D+x) for x in('FileHeader.cc','RecordHeader.cc','LineHeader.cc')]); T=[t for t in table(HEAD[cls])[0] if not t[0].startswith('pad')]; size=lay()[cls][0]
        vm=U.vm(prog)
        def obj():
            st=State(); return st,vm.new(st,'h',size,'heap',z3.Array('h',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
        def frame(s,o,lo,hi,what):
            k=z3.BitVec('k',64); x=s.fork(); x.assume(z3.And(z3.ULT(k,size),z3.Or(z3.ULT(k,lo),z3.UGE(k,hi)))); vm.oblige(x,bv(vm.read(x,o,k,1),8)==z3.Select(z3.Array('h',z3.BitVecSort(64),z3.BitVecSort(8)),k),what)
        for m,fo,w,tx in T:
            a=moff(cls,m); g=prog.funcs['get_%s_%s'%(cls,m)]; se=prog.funcs['set_%s_%s'%(cls,m)]
            if not tx:
                st,o=obj(); v=z3.BitVec('v',32)
                for r in U.rets(vm,vm.call_fn(se,[Ptr(o,0),v],st),what='setter'):
                    if U.equal(vm,r.st,vm.read(r.st,o,a,4),v,'%s(v) stores v'%m,32): U.ok('set')
                    frame(r.st,o,a,a+4,'%s(v) changes nothing else'%m)
                    for q in U.rets(vm,vm.call_fn(g,[Ptr(o,0)],r.st),what='getter'):
                        if U.equal(vm,q.st,q.val,v,'%s() returns what %s(v) stored'%(m,m),32): U.ok('get')
                continue
            st,o=obj()
            for q in U.rets(vm,vm.call_fn(g,[Ptr(o,0)],st),what='getter'): U.result('%s() returns the text of the header'%m,isinstance(q.val,Ptr) and q.val.obj is o and q.val.off==a)
            for n in range(0,w+3):
                st,o=obj(); arr=z3.Array('text',z3.BitVecSort(64),z3.BitVecSort(8)); t=vm.new(st,'text',n+1,'heap',arr)
                for i in range(n): st.assume(z3.Select(arr,z3.BitVecVal(i,64))!=0)
                st.assume(z3.Select(arr,z3.BitVecVal(n,64))==0)
                for r in U.rets(vm,vm.call_fn(se,[Ptr(o,0),Ptr(t,0)],st),what='setter'):
                    for i in range(min(n,w)): vm.oblige(r.st,bv(vm.read(r.st,o,a+i,1),8)==z3.Select(arr,z3.BitVecVal(i,64)),'%s(text) stores the text'%m)
                    if m=='satellite':
                        for i in range(n,w): vm.oblige(r.st,bv(vm.read(r.st,o,a+i,1),8)==0,'nothing of the previous name is left')
                    frame(r.st,o,a,a+w+(0),'%s(text) changes nothing else'%m)
    return f
# ---------------------------------------------------------------- scan lines
def line_setup(U):
    prog=U.prog([build.emit_ir(D+x) for x in('ByteSex.cc','LineHeader.cc','ScanLine.cc')]); return prog,U.vm(prog)
def vec_contracts(vm,prog):
    """std::vector<unsigned char>: resize and assignment by contract"""
    import z3
    from sym import Ptr,norm,bv,Unsupported,NULL
    V=r'std::vector<unsigned char.*?>::'
    def resize(vm_,st,a,I):
        q=vm_.resolve(st,a[0])[0][1]; b=vm_.read(st,q.obj,q.off,8); e=vm_.read(st,q.obj,off(q.off,8),8)
        if isinstance(b,Ptr) and b.obj is not None and not(isinstance(e,Ptr) and e.obj is b.obj and e.off==b.off): raise Unsupported('resize of a vector that is not empty')
        n=bv(a[1],64); vm_.oblige(st,z3.ULE(n,1<<62),'the vector is resized to a possible size'); o=vm_.new(st,'pixels',norm(z3.simplify(n)),'heap','zero',const=False); n=norm(z3.simplify(n))
        for k,p in((0,Ptr(o,0)),(8,Ptr(o,n)),(16,Ptr(o,n))): vm_.write(st,q.obj,off(q.off,k),8,p)
        return None
    for nm,d in prog.dem.items():
        if re.match(V+r'resize\(unsigned long\)',d): vm.contracts[nm]=resize
    vm.assumptions.add('std::vector::resize of an empty vector gives zeroed elements (allocation failure not modelled)')
def unit_line_write(U):
    import z3
    from sym import State,Ptr,bv,norm
    prog,vm=line_setup(U); st=State(); S=Streams(vm,prog,st); L=lay()['ScanLine'][0]; p0=z3.BitVec('p0',64); st.assume(z3.ULE(p0,1<<32)); S.setopos(st,p0)
    h,v=arbitrary(vm,st,'LineHeader','h'); ho=moff('ScanLine','lineheader'); n=z3.ZeroExt(48,v['no_pixels']); px=vm.new(st,'px',norm(n),'heap',z3.Array('px',z3.BitVecSort(64),z3.BitVecSort(8)))
    o=vm.new(st,'line',L,'heap','zero',const=False); po=moff('ScanLine','linepixel')
    for m,fo,w,tx in table(LINE)[0]: vm.write(st,o,ho+moff('LineHeader',m),4,z3.ZeroExt(16,v[m]))
    for k,p in((0,0),(8,norm(n)),(16,norm(n))): vm.write(st,o,po+k,8,Ptr(px,p))
    U.on_model=lambda ev,ob:('line',{m:ev(y).as_long() for m,y in v.items()})
    ln=z3.ZeroExt(48,v['length']); t=z3.If(z3.UGT(ln,n+16),ln-n-16,z3.BitVecVal(0,64)); k=z3.BitVec('k',64)
    for r in U.rets(vm,vm.call_fn(fn(prog,OUT('ScanLine')),[S.o,Ptr(o,0)],st),what='operator<<'):
        s=r.st
        for m,fo,w,tx in table(LINE)[0]:
            for i in range(w):
                if U.equal(vm,s,vm.read(s,S.sink,norm(z3.simplify(p0+fo+i)),1),z3.Extract(15-8*i,8-8*i,v[m]),'%s is written at byte %d'%(m,fo),8): U.ok('field')
        x=s.fork(); x.assume(z3.ULT(k,n))
        if U.equal(vm,x,vm.read(x,S.sink,norm(z3.simplify(p0+16+k)),1),vm.read(x,px,k,1),'pixel k is written after the line header',8): U.ok('pixel')
        x=s.fork(); x.assume(z3.ULT(k,t)); vm.oblige(x,bv(vm.read(x,S.sink,norm(z3.simplify(p0+16+n+k)),1),8)==0,'the rest of the line is zero')
        vm.oblige(s,S.opos(s)==p0+16+n+t,'the length written is that of the line')
def unit_line_read(U):
    import z3
    from sym import State,Ptr,bv,norm
    prog,vm=line_setup(U); st=State(); N=z3.BitVec('N',64); p0=z3.BitVec('p0',64); st.assume(z3.And(z3.ULE(p0,1<<32),z3.ULE(N,1<<33))); arr=z3.Array('in',z3.BitVecSort(64),z3.BitVecSort(8)); src=vm.new(st,'in',N,'heap',arr); S=Streams(vm,prog,st,src,N); S.setpos(st,p0); vec_contracts(vm,prog)
    B=lambda i:z3.Select(arr,z3.simplify(p0+i)); v={m:z3.Concat(B(fo),B(fo+1)) for m,fo,w,tx in table(LINE)[0]}; n=z3.ZeroExt(48,v['no_pixels']); ln=z3.ZeroExt(48,v['length']); t=z3.If(z3.UGT(ln,n+16),ln-n-16,z3.BitVecVal(0,64)); st.assume(z3.ULE(p0+16+n+t,N)); S.exact=p0+16+n+t; k=z3.BitVec('k',64)
    o=vm.new(st,'line',lay()['ScanLine'][0],'heap','zero',const=False); ho=moff('ScanLine','lineheader'); po=moff('ScanLine','linepixel')
    for r in U.rets(vm,vm.call_fn(fn(prog,IN('ScanLine')),[S.i,Ptr(o,0)],st),what='operator>>'):
        s=r.st
        for m,fo,w,tx in table(LINE)[0]:
            if U.equal(vm,s,vm.read(s,o,ho+moff('LineHeader',m),4),z3.ZeroExt(16,v[m]),'%s is the big-endian number at byte %d'%(m,fo),32): U.ok('field')
        b=vm.read(s,o,po,8); e=vm.read(s,o,po+8,8); ok=isinstance(b,Ptr) and isinstance(e,Ptr) and b.obj is e.obj and b.obj is not None
        U.result('the pixels are stored',ok)
        if not ok: continue
        vm.oblige(s,bv(e.off,64)-bv(b.off,64)==n,'as many pixels as the line header says')
        x=s.fork(); x.assume(z3.ULT(k,n)); vm.oblige(x,bv(vm.read(x,b.obj,norm(z3.simplify(bv(b.off,64)+k)),1),8)==B(16+k),'pixel k is byte 16+k of the line')
        vm.oblige(s,S.pos(s)==p0+16+n+t,'reading consumes exactly the bytes of the line')
        vm.oblige(s,S.state(s)==z3.If(z3.ULT(ln,n+16),z3.BitVecVal(4,32),z3.BitVecVal(0,32)),'the stream is left good, except after a line length that cannot hold the pixels')
# ---------------------------------------------------------------- records and files: a header, then the elements in order
SEQ={'Record':('RecordHeader','recordheader','ScanLine','scanline','no_scanlines',0,'Record.cc'),'OpenMTP_IDS':('FileHeader','fileheader','Record','record','no_records',1,'OpenMTP-IDS.cc')}
def seq(U,cls,nn=None):
    """a container with n elements in its vector; the elements' own codecs by contract (log of the elements met, in order)"""
    import z3, models
    from sym import State,Ptr,bv,norm,NULL,Unsupported,FALSE,TRUE,Outcome
    from exec import DeadPath
    H,hm,E,vm_,cnt,bias,src=SEQ[cls]; L=lay(); ES=L[E][0]
    prog=U.prog([build.emit_ir(D+x) for x in(src,'FileHeader.cc','RecordHeader.cc','LineHeader.cc')]); vm=U.vm(prog); st=State(); S=Streams(vm,prog,st); n=z3.BitVec('n',64); vo=moff(cls,vm_); ho=moff(cls,hm)
    els=vm.new(st,'elements',norm(z3.simplify(ES*n)),'heap',z3.Array('els',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
    log=vm.new(st,'log',1<<40,'heap','zero',const=False); this=vm.new(st,'this',L[cls][0],'heap',z3.Array('this',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
    # ctl+24: elements met, ctl+32: headers met
    def one(v,s,p):
        r=v.resolve(s,p)
        if len(r)!=1: raise Unsupported('conditional object')
        return r[0][1]
    def setvec(v,s,q,size):
        b,e=(NULL,NULL) if size is None else (Ptr(els,0),Ptr(els,norm(z3.simplify(ES*size))))
        for k,p in((0,b),(8,e),(16,e)): v.write(s,q.obj,off(q.off,k),8,p)
    def size(v,s,a,I):
        q=one(v,s,a[0]); b,e=[one(v,s,v.read(s,q.obj,off(q.off,k),8)) for k in(0,8)]
        if b.obj is None and e.obj is None: return 0
        if b.obj is els and e.obj is els and b.off==0:
            for w in(n,s.ghost.get('resized')):
                if w is not None and z3.is_true(z3.simplify(bv(e.off,64)==ES*w)): return w
        raise Unsupported('size of an unknown vector')
    def resize(v,s,a,I):
        q=one(v,s,a[0]); sz=size(v,s,[q],I); m=z3.simplify(bv(a[1],64))
        if not(isinstance(sz,int) and sz==0): raise Unsupported('resize of a vector that is not empty')
        s.ghost['resized']=m; els_=els; v.oblige(s,z3.ULE(m,1<<20),'the number of elements is a possible one'); s.assume(m==n); setvec(v,s,q,m); return None
    def assign(v,s,a,I):
        q,p=one(v,s,a[0]),one(v,s,a[1]); sz=size(v,s,[p],I)
        if not(isinstance(sz,int) and sz==0): raise Unsupported('assignment of a vector that is not empty')
        setvec(v,s,q,None); return a[0]
    def codec(kind,write):
        def c(v,s,a,I):
            q=one(v,s,a[1]); base=S.ctl
            if kind=='header':
                v.oblige(s,q.obj is this and q.off==ho and bv(v.read(s,base,24,8),64)==0 and True if not isinstance(v.read(s,base,24,8),z3.ExprRef) else FALSE,'the header comes first'); v.write(s,base,32,8,norm(z3.simplify(bv(v.read(s,base,32,8),64)+1)))
                if not write:
                    f=s.fork(); S.setstate(v,f,[None,4],I); f.ghost['failed']=True
                    arr=z3.Array('hdr',z3.BitVecSort(64),z3.BitVecSort(8))
                    for k in range(L[H][0]): v.write(s,q.obj,off(q.off,k),1,z3.Select(arr,z3.BitVecVal(k,64)))
                    v.write(s,q.obj,off(q.off,moff(H,cnt)),4,z3.ZeroExt(16,z3.BitVec('count',16)))
                    return [Outcome('ret',s,a[0]),Outcome('ret',f,a[0])]
                return a[0]
            if not v.chk(s,True,q,ES,'element'): raise DeadPath()
            if q.obj is not els: raise Unsupported('an element outside the vector')
            i=bv(v.read(s,base,24,8),64); v.write(s,log,norm(z3.simplify(8*i)),8,q.off); v.write(s,base,24,8,norm(z3.simplify(i+1)))
            if write: return a[0]
            f=s.fork(); S.setstate(v,f,[None,4],I); f.ghost['failed']=True; e=s.fork(); e.ghost['failed']=True
            return [Outcome('ret',s,a[0]),Outcome('ret',f,a[0]),models.throw(v,e,'_ZTIPKc')]
        return c
    V=r'std::vector<%s.*?>::'%E
    for nm,d in prog.dem.items():
        if re.match(V+r'size\(\) const',d): vm.contracts[nm]=size
        elif re.match(V+r'resize\(unsigned long\)',d): vm.contracts[nm]=resize
        elif re.match(V+r'operator=\(',d): vm.contracts[nm]=assign
        elif re.match(V+r'~vector\(\)',d): vm.contracts[nm]=lambda v,s,a,I: None
        elif re.match(OUT(H)+'$',d): vm.contracts[nm]=codec('header',True)
        elif re.match(IN(H)+'$',d): vm.contracts[nm]=codec('header',False)
        elif re.match(OUT(E)+'$',d): vm.contracts[nm]=codec('element',True)
        elif re.match(IN(E)+'$',d): vm.contracts[nm]=codec('element',False)
    vm.assumptions.add('std::vector<%s>: size, resize of an empty vector, assignment of an empty vector (allocation failure not modelled)'%E)
    return prog,vm,st,S,this,els,log,n,vo,ho,setvec
def unit_seq_write(cls):
    def f(U):
        import z3
        from sym import Ptr,bv
        prog,vm,st,S,this,els,log,n,vo,ho,setvec=seq(U,cls); H,hm,E,v_,cnt,bias,src=SEQ[cls]; st.assume(z3.ULE(n,1<<20)); setvec(vm,st,Ptr(this,vo),n)
        c=bv(vm.read(st,this,ho+moff(H,cnt),4),32); agree=z3.And(c>=1,z3.SignExt(32,c)-1==n) if bias else z3.BoolVal(True); k=z3.BitVec('k',64)
        outs=vm.call_fn(fn(prog,OUT(cls)),[S.o,Ptr(this,0)],st)
        for o in outs:
            if o.kind=='throw': vm.oblige(o.st,z3.Not(agree),'writing is refused only when the header does not agree with the number of elements')
        for o in U.rets(vm,outs,allow=('ret','throw') if bias else('ret',),what='operator<<'):
            s=o.st; vm.oblige(s,agree,'a header that does not agree with the elements is refused')
            vm.oblige(s,bv(vm.read(s,S.ctl,32,8),64)==1,'the header is written once'); vm.oblige(s,bv(vm.read(s,S.ctl,24,8),64)==n,'every element is written once')
            x=s.fork(); x.assume(z3.ULT(k,n)); vm.oblige(x,bv(vm.read(x,log,8*k,8),64)==lay()[E][0]*k,'the elements are written in order')
    return f
def unit_seq_read(cls):
    def f(U):
        import z3
        from sym import Ptr,bv
        prog,vm,st,S,this,els,log,n,vo,ho,setvec=seq(U,cls); H,hm,E,v_,cnt,bias,src=SEQ[cls]; setvec(vm,st,Ptr(this,vo),None); k=z3.BitVec('k',64); count=z3.BitVec('count',16)
        outs=vm.call_fn(fn(prog,IN(cls)),[S.i,Ptr(this,0)],st)
        for o in outs:
            if o.kind=='throw': vm.oblige(o.st,z3.BoolVal(True) if o.st.ghost.get('failed') is True else z3.And(z3.BoolVal(bool(bias)),count==0),'reading fails only because of the stream')
        for o in U.rets(vm,outs,allow=('ret','throw'),what='operator>>'):
            s=o.st; vm.oblige(s,z3.BoolVal(s.ghost.get('failed') is not True),'a failure of the stream is reported')
            vm.oblige(s,bv(vm.read(s,S.ctl,32,8),64)==1,'the header is read once'); want=z3.ZeroExt(48,count)-bias
            vm.oblige(s,bv(vm.read(s,S.ctl,24,8),64)==want,'as many elements are read as the header says')
            b,e=vm.read(s,this,vo,8),vm.read(s,this,vo+8,8)
            ok=all(isinstance(p,Ptr) for p in(b,e)) and b.obj is e.obj; U.result('the elements are in the vector',ok)
            if ok: vm.oblige(s,bv(e.off,64)-bv(b.off,64)==lay()[E][0]*want,'the vector holds the elements read')
            x=s.fork(); x.assume(z3.ULT(k,want)); vm.oblige(x,bv(vm.read(x,log,8*k,8),64)==lay()[E][0]*k,'the elements are read in order')
            vm.oblige(s,bv(vm.read(s,this,ho+moff(H,cnt),4),32)==z3.ZeroExt(16,count),'the header read is the one kept')
    return f
# ---------------------------------------------------------------- C15: selection
def products(U):
    """a product of R records; record at byte offset o holds SZ(o) lines; S(o) lines precede it. All the lines lie, in order, in one object."""
    import z3
    from sym import State,Ptr,bv,norm,Unsupported,FALSE
    prog=U.prog([build.emit_ir(D+'OpenMTP-IDS.cc')]); vm=U.vm(prog); st=State(); L=lay(); RS,LS=L['Record'][0],L['ScanLine'][0]
    R=z3.BitVec('R',64); st.assume(z3.ULE(R,1<<20)); end=norm(z3.simplify(RS*R)); SZ_=z3.Function('lines',z3.BitVecSort(64),z3.BitVecSort(32)); P_=z3.Function('before',z3.BitVecSort(64),z3.BitVecSort(32)); SZ=lambda o:z3.ZeroExt(32,SZ_(o)); P=lambda o:z3.ZeroExt(32,P_(o)); TOT=P(R)
    st.assume(P(z3.BitVecVal(0,64))==0); st.assume(z3.ULT(TOT,(1<<32)-1))
    recs=vm.new(st,'records',end,'heap',z3.Array('records',z3.BitVecSort(64),z3.BitVecSort(8))); lines=vm.new(st,'lines',norm(z3.simplify(LS*TOT)),'heap',z3.Array('lines_',z3.BitVecSort(64),z3.BitVecSort(8)))
    recs.meta['stride']=RS
    this=vm.new(st,'this',L['OpenMTP_IDS'][0],'heap',z3.Array('this',z3.BitVecSort(64),z3.BitVecSort(8)),const=False); vo=moff('OpenMTP_IDS','record'); so=moff('Record','scanline')
    for k,p in((0,0),(8,end),(16,end)): vm.write(st,this,vo+k,8,Ptr(recs,p))
    g=vm.new(st,'ghost',64,'heap','zero',const=False) # +0 next line to be appended, +8 first line of the current record, +16 one beyond it, +24 something was appended
    def one(v,s,p):
        r=v.resolve(s,p)
        if len(r)!=1: raise Unsupported('conditional object')
        return r[0][1]
    def rec(v,s,p):
        q=one(v,s,p)
        if q.obj is not recs: raise Unsupported('lines of an unknown record')
        v.chk(s,True,q,L['Record'][0]-so,'record'); o=index(z3.simplify(bv(q.off,64)-so),RS)
        s.assume(P(z3.simplify(o+1))==P(o)+SZ(o)); s.assume(z3.ULE(SZ(o),TOT)); s.assume(z3.ULE(P(z3.simplify(o+1)),TOT)); s.assume(z3.ULE(P(o),TOT)); return o
    # the prefix sums never exceed the total, and the sum after the last record is the total
    def size(v,s,a,I): return z3.simplify(SZ(rec(v,s,a[0])))
    def begin(v,s,a,I):
        if one(v,s,a[0]).obj is not recs: return one(v,s,a[0]) # a position of the result
        o=rec(v,s,a[0]); v.write(s,g,8,8,P(o)); v.write(s,g,16,8,P(o)+SZ(o)); return Ptr(lines,norm(z3.simplify(LS*P(o))))
    def end_(v,s,a,I):
        if one(v,s,a[0]).obj is not recs: return one(v,s,a[0])
        o=rec(v,s,a[0]); v.write(s,g,8,8,P(o)); v.write(s,g,16,8,P(o)+SZ(o)); return Ptr(lines,norm(z3.simplify(LS*(P(o)+SZ(o)))))
    def append(v,s,a,b):
        """lines [a,b) (pointers) are appended"""
        a,b=one(v,s,a),one(v,s,b)
        if a.obj is not lines or b.obj is not lines: raise Unsupported('lines from elsewhere')
        from sym import fresh
        i,j=fresh('first',64),fresh('last',64); s.assume(z3.ULE(i,1<<33)); s.assume(z3.ULE(j,1<<33))
        # i, j: the line numbers of the two positions
        for x,q in((i,a),(j,b)):
            t=index(bv(q.off,64),LS)
            s.assume(x==t)
        lo,hi,nx=[bv(v.read(s,g,k,8),64) for k in(8,16,0)]
        v.oblige(s,z3.And(z3.ULE(lo,i),z3.ULE(i,j),z3.ULE(j,hi)),'lines are copied from within one record'); v.oblige(s,z3.Or(i==j,i==nx),'the lines follow those already selected'); v.write(s,g,0,8,norm(z3.simplify(z3.If(i==j,nx,j))))
    def index(o,LS):
        """o is LS * something: that something"""
        from poly import to_poly,from_poly
        p=to_poly(z3.simplify(o))
        if any(c%LS for c in p.values()): raise Unsupported('position that is not a line')
        return from_poly({m:(c//LS) for m,c in p.items()})
    def copy(v,s,a,I): append(v,s,a[0],a[1]); return a[2]
    def push(v,s,a,I):
        q=one(v,s,a[1]); append(v,s,q,Ptr(q.obj,norm(z3.simplify(bv(q.off,64)+LS)))); return None
    def insert(v,s,a,I): append(v,s,a[2],a[3]); return a[1]
    V=r'std::vector<ScanLine.*?>::'
    for nm,d in prog.dem.items():
        if re.match(V+r'size\(\) const',d): vm.contracts[nm]=size
        elif re.match(V+r'c?begin\(\)( const)?$',d): vm.contracts[nm]=begin
        elif re.match(V+r'c?end\(\)( const)?$',d): vm.contracts[nm]=end_
        elif re.match(V+r'push_back\(',d): vm.contracts[nm]=push
        elif re.match(V+r'reserve\(',d) or re.match(V+r'~vector',d): vm.contracts[nm]=lambda v,s,a,I: None
        elif re.search(r'back_insert_iterator<.*ScanLine.* std::copy<',d): vm.contracts[nm]=copy
        elif re.search(V+r'insert<',d): vm.contracts[nm]=insert
        elif re.match(r'std::vector<Record.*?>::size\(\) const',d): vm.contracts[nm]=lambda v,s,a,I: R
    def cands(v,fr,h,X,ints,add):
        val=lambda x:x.off if isinstance(x,Ptr) else x
        w=lambda x,k=64: bv(val(x),k)
        pos=[]
        ints=[t for t in ints if not(t.key[0]=='m' and t.key[1]==g.id)]
        for t in ints:
            if isinstance(t.x,Ptr) and t.x.obj is recs: pos.append((t.key,lambda x:index(w(x),RS)))
            elif isinstance(t.x,z3.BitVecRef) and t.x.size() in(32,64) and isinstance(t.entry,int) and t.entry==0: pos.append((t.key,lambda x,n=t.x.size(): z3.simplify(z3.ZeroExt(32,w(x,32)) if n==32 else w(x))))
        for pk,pf in pos:
            add('position in range',lambda X,G,pk=pk,pf=pf: z3.ULE(pf(G(pk)),R))
            add('total',lambda X,G,pk=pk,pf=pf: z3.ULE(P(pf(G(pk))),TOT))
            for t in ints:
                if not isinstance(t.x,z3.BitVecRef) or t.x.size() not in(32,64): continue
                n=t.x.size(); e=w(t.entry,n); ex=lambda x,n=n: z3.ZeroExt(32,x) if n==32 else x; k=t.key
                add('counted down by the lines',lambda X,G,k=k,e=e,pk=pk,pf=pf,n=n,ex=ex: z3.And(ex(w(G(k),n))==ex(e)-P(pf(G(pk))),z3.ULE(P(pf(G(pk))),ex(e))))
                add('counted down by the lines, not below zero',lambda X,G,k=k,e=e,pk=pk,pf=pf,n=n,ex=ex: ex(w(G(k),n))==z3.If(z3.ULT(ex(e),P(pf(G(pk)))),z3.BitVecVal(0,64),ex(e)-P(pf(G(pk)))))
                add('counts the lines',lambda X,G,k=k,e=e,pk=pk,pf=pf,n=n,ex=ex: ex(w(G(k),n))==ex(e)+P(pf(G(pk))))
            if U.__dict__.get('sel'):
                a,b=U.sel
                add('selected so far',lambda X,G,pk=pk,pf=pf: (lambda nx: nx==z3.If(z3.ULT(P(pf(G(pk))),a),a,z3.If(z3.ULT(P(pf(G(pk))),b),P(pf(G(pk))),b)))(w(G(('m',g.id,0)))) if ('m',g.id,0) in X else z3.BoolVal(True),True)
    vm.more_cands=cands; vm.force_inv=True; vm.use_inv=True
    vm.assumptions.add('std::vector<ScanLine>::begin, end, size and std::copy to a back_inserter have their documented meaning; a product has fewer than 2^32-1 lines')
    return prog,vm,st,this,g,R,TOT,P,end
def unit_range(U):
    import z3
    from sym import Ptr,bv,norm
    prog,vm,st,this,g,R,TOT,P,end=products(U); a,b=z3.BitVec('from',32),z3.BitVec('to',32); A,B=z3.ZeroExt(32,a),z3.ZeroExt(32,b); U.sel=(A,z3.If(z3.ULT(B,A),A,B)); vm.write(st,g,0,8,A)
    U.on_model=lambda ev,ob:('range',ev(a).as_long(),ev(b).as_long(),ev(TOT).as_long(),ev(R).as_long())
    ret=vm.new(st,'ret',24,'heap',z3.Array('ret',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
    want=z3.If(z3.UGE(A,z3.If(z3.ULT(B,TOT),B,TOT)),A,z3.If(z3.ULT(B,TOT),B,TOT))
    for o in U.rets(vm,vm.call_fn(fn(prog,r'OpenMTP_IDS::scanline\(unsigned int, unsigned int\) const'),[Ptr(ret,0),Ptr(this,0),a,b],st),what='scanline(from,to)'):
        vm.oblige(o.st,bv(vm.read(o.st,g,0,8),64)==want,'the lines selected are exactly [from,to) of those present')
def unit_all(line):
    def f(U):
        import z3
        from sym import Ptr,bv,Unsupported
        prog,vm,st,this,g,R,TOT,P,end=products(U); ret=vm.new(st,'ret',24,'heap','zero',const=False); got=[]
        def sel(v,s,a,I): s.ghost['asked']=s.ghost.get('asked',())+((a[2],a[3],a[0].obj is ret and a[1].obj is this),); return None
        for nm,d in prog.dem.items():
            if d.startswith('OpenMTP_IDS::scanline(unsigned int, unsigned int) const'): vm.contracts[nm]=sel
        l=z3.BitVec('line',32)
        for o in U.rets(vm,vm.call_fn(fn(prog,r'OpenMTP_IDS::scanline\(%s\) const'%('unsigned int' if line else '')),[Ptr(ret,0),Ptr(this,0)]+([l] if line else []),st),what='scanline'):
            q=o.st.ghost.get('asked',())
            if len(q)!=1 or not q[0][2]: raise Unsupported('selection that does not go through scanline(from,to)')
            a,b=[z3.ZeroExt(32,bv(x,32)) for x in q[0][:2]]
            if line:
                L=z3.ZeroExt(32,l); vm.oblige(o.st,z3.If(z3.ULT(L,TOT),z3.And(a==L,b==L+1),z3.Or(z3.UGE(a,b),z3.UGE(a,TOT))),'one line is selected: the one requested')
            else: vm.oblige(o.st,z3.And(a==0,z3.UGE(b,TOT)),'all the lines are selected')
    return f

# ---------------------------------------------------------------- oracle: bytes of a product
GET={'FileHeader':FILE,'RecordHeader':REC,'LineHeader':LINE}
def enc(cls,v):
    b=b''
    for m,fo,w,tx in table(GET[cls])[0]: b+=bytes(v[m]) if tx else v[m].to_bytes(2,'big')
    if cls=='FileHeader': b+=bytes(max(0,v['record_length']+2-len(b)))
    return b
def dump(cls,v): return ' '.join(bytes(v[m]).split(b'\0')[0].hex() if m=='satellite' else bytes(v[m]).hex() if tx else str(v[m]) for m,fo,w,tx in table(GET[cls])[0])
def enc_line(l): return enc('LineHeader',l[0])+l[1]+bytes(max(0,l[0]['length']-16-len(l[1])))
def enc_product(p): return enc('FileHeader',p[0])+b''.join(enc('RecordHeader',r[0])+b''.join(map(enc_line,r[1])) for r in p[1])
def dump_line(l): return dump('LineHeader',l[0])+' ['+l[1].hex()+']'
def dump_product(p): return dump('FileHeader',p[0])+''.join(' R '+dump('RecordHeader',r[0])+''.join(' L '+dump_line(l) for l in r[1]) for r in p[1])
def rnd_head(rnd,cls):
    pick=lambda: rnd.choice([0,1,2,127,128,255,256,32767,32768,65535,rnd.randrange(65536),rnd.randrange(65536)])
    return {m:[rnd.randrange(1,256) if m=='satellite' else rnd.randrange(256) for _ in range(w)] if tx else pick() for m,fo,w,tx in table(GET[cls])[0]}
def rnd_line(rnd,no):
    h=rnd_head(rnd,'LineHeader'); n=rnd.choice([0,1,2,rnd.randrange(40)]); h['no_pixels']=n; h['length']=16+n+rnd.choice([0,0,1,5]); h['line']=no; return h,rnd.randbytes(n)
def rnd_product(rnd,nrec=None,sizes=None):
    sizes=[rnd.choice([0,1,2,3,rnd.randrange(7)]) for _ in range(rnd.randrange(6) if nrec is None else nrec)] if sizes is None else sizes; no=0; recs=[]
    for n in sizes:
        r=rnd_head(rnd,'RecordHeader'); r['no_scanlines']=n; ls=[]
        for _ in range(n): ls.append(rnd_line(rnd,no)); no+=1
        recs.append((r,ls))
    f=rnd_head(rnd,'FileHeader'); f['no_records']=len(sizes)+1; f['record_length']=rnd.choice([58,59,80,200]); return f,recs
