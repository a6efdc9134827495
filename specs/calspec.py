"""C07: calibration of SEVIRI counts. Constants: effective radiance to brightness temperature, MSG level 1.5 (MET-8, 95 K detectors)."""
import re, build, layout, contracts, math
SRC='msat/hrit/MSG_data_RadiometricProc.cpp'
NU={4:2569.094,5:1598.566,6:1362.142,7:1149.083,8:1034.345,9:930.659,10:839.661,11:752.381}
A={4:0.9959,5:0.9963,6:0.9991,7:0.9996,8:0.9999,9:0.9983,10:0.9988,11:0.9981}
B={4:3.471,5:2.2219,6:0.485,7:0.181,8:0.060,9:0.627,10:0.397,11:0.576}
C1,C2=1.19104e-5,1.43877
def planck(ch,L):
    """concrete oracle"""
    try: x=C1*NU[ch]**3/L+1.0
    except ZeroDivisionError: x=math.copysign(math.inf,1.0)
    l=math.inf if x==math.inf else (math.nan if x<0 or x!=x else (-math.inf if x==0 else math.log(x)))
    try: t=C2*NU[ch]/l
    except ZeroDivisionError: t=math.inf
    return (t-B[ch])/A[ch]
def slope_ok(ch,x): return abs(x-1/A[ch])<1e-12
def offset_ok(ch,x): return abs(x+B[ch])<1e-12 or abs(x+B[ch]/A[ch])<1e-12
def begin(U):
    import z3
    from sym import State,Ptr,And
    L=layout.dump('#include <msat/hrit/MSG_data_RadiometricProc.h>\nstatic int z=sizeof(MSG_data_RadiometricProc);')
    size,lv=L['MSG_data_RadiometricProc']; off=[l[1] for l in lv if l[3]=='ImageCalibration'][0]; es,el=L['MSG_Image_Calibration']; fo={l[3]:l[1] for l in el}
    prog=U.prog([build.emit_ir(SRC)]); vm=U.vm(prog)
    st=State(); arr=z3.Array('rp',z3.BitVecSort(64),z3.BitVecSort(8)); this=vm.buf(st,'this',size,arr=arr,const=False)
    def cal(ch,f): return lambda s: vm.conv(vm.read(s,this,off+(ch-1)*es+fo[f],8),8,class_double)
    return prog,vm,st,this,arr,cal
class class_double: k='double'; store=8; w=64
def pow2(vm,bpp):
    """pow(2.0, n) for the integer n under the assumption 0<=n<=30: exactly 2^n"""
    import z3
    from sym import fpz,fmath,F64
    def c(vm_,st,a,I):
        if isinstance(a[0],float) and a[0]==2.0 and isinstance(a[1],z3.FPRef):
            e=a[1]
            if z3.is_app(e) and e.decl().kind()==z3.Z3_OP_FPA_TO_FP and e.num_args()==2 and isinstance(e.arg(1),z3.BitVecRef):
                n=e.arg(1); vm_.oblige(st,z3.And(n>=0,n<=30),'exponent of pow(2.0, n) is in 0..30'); return z3.fpSignedToFP(z3.RNE(),z3.BitVecVal(1,32)<<n,F64)
        return fmath('pow',[x if isinstance(x,float) else fpz(x,8) for x in a],8)
    for n in('pow','exp2','llvm.pow.f64'): vm.contracts[n]=c
    def ld(vm_,st,a,I):
        if isinstance(a[0],float) and a[0]==1.0 and isinstance(a[1],z3.BitVecRef):
            vm_.oblige(st,z3.And(a[1]>=0,a[1]<=30),'exponent of ldexp is in 0..30'); return z3.fpSignedToFP(z3.RNE(),z3.BitVecVal(1,32)<<a[1],F64)
        return NotImplemented
    vm.contracts['ldexp']=ld
    vm.assumptions.add('pow(2.0, n) is exact for integers 0..30')
def fns(prog,meth): 
    l=[n for n in prog.funcs if not prog.funcs[n].decl and prog.dem.get(n,'').startswith('MSG_data_RadiometricProc::%s('%meth)]
    return l
def unit_table(ch):
    def fn(U):
        import z3
        from sym import Ptr,bv,fbin,fmath,F64,norm,Unsupported
        prog,vm,st,this,arr,cal=begin(U); bpp=z3.BitVec('bpp',32); i=z3.BitVec('i',64); pow2(vm,bpp)
        st.assume(z3.And(bpp>=0,bpp<=16)); l=fns(prog,'get_calibration')
        if not l: raise Unsupported('no get_calibration')
        U.on_model=lambda ev,o:(ch,ev(bpp).as_long(),fpv(ev,cal(ch,'Cal_Slope')(st)),fpv(ev,cal(ch,'Cal_Offset')(st)))
        for o in U.rets(vm,vm.call_fn(prog.funcs[l[0]],[Ptr(this,0),ch,bpp],st),what='get_calibration'):
            alts=vm.resolve(o.st,o.val)
            U.result('a single table is returned',len(alts)==1 and alts[0][1].obj is not None)
            q=alts[0][1]; n=z3.SignExt(32,z3.BitVecVal(1,32)<<bpp)
            vm.oblige(o.st,z3.And(z3.UGE(bv(q.obj.size,64)-bv(q.off,64),4*n),bv(q.off,64)==0),'the table has one entry per count of %s bits'%'bpp')
            s=o.st.fork(); s.assume(z3.ULT(i,n)); s.assume(z3.ULE(n,65536))
            class FL: k='float'; store=4; w=32
            got=vm.conv(vm.read(s,q.obj,norm(z3.simplify(4*i)),4),4,FL)
            sl,of=cal(ch,'Cal_Slope')(s),cal(ch,'Cal_Offset')(s)
            cnt=z3.fpSignedToFP(z3.RNE(),z3.Extract(31,0,i),F64); rad=fbin('fadd',fbin('fmul',cnt,sl,8),of,8)
            if ch in NU:
                x=fbin('fadd',fbin('fdiv',math.pow(NU[ch],3)*C1,rad,8),1.0,8); w=fbin('fdiv',fbin('fsub',fbin('fdiv',NU[ch]*C2,fmath('log',[x],8),8),B[ch],8),A[ch],8); nm='entry of count i of channel %d is the brightness temperature of slope*i+offset'%ch
            else: w=rad; nm='entry of count i of channel %d is slope*i+offset'%ch
            w=z3.fpToFP(z3.RNE(),w,z3.Float32())
            if U.equal(vm,s,got,w,nm,32): U.ok(nm)
            frame(U,vm,o,this,arr)
    return fn
def frame(U,vm,o,this,arr):
    c=vm.content(o.st,this); U.result('the record itself is not modified',c.base is arr and all(not getattr(l,'d',1) for l in c.layers))
def fpv(ev,t):
    from sym import fconc
    import z3
    f=fconc(z3.simplify(ev(t))); return f
def unit_slope(U):
    import z3
    from sym import Ptr,bv,zbool,Unsupported
    prog,vm,st0,this,arr,cal=begin(U); l=fns(prog,'get_slope_offset')
    if not l: raise Unsupported('no get_slope_offset')
    for ch in range(1,13):
        st=st0.fork(); s,o_,f=[vm.new(st,n,8) for n in('slope','offset','linear')]
        U.on_model=lambda ev,o:(ch,-1,fpv(ev,cal(ch,'Cal_Slope')(st)),fpv(ev,cal(ch,'Cal_Offset')(st)))
        for r in U.rets(vm,vm.call_fn(prog.funcs[l[0]],[Ptr(this,0),ch,Ptr(s,0),Ptr(o_,0),Ptr(f,0)],st),what='get_slope_offset'):
            b=vm.read(r.st,f,0,1); U.result('channel %d is %slinear'%(ch,'not ' if ch in NU else ''),isinstance(b,int) and (b&1)==(0 if ch in NU else 1))
            if ch in NU:
                gs,go=[vm.conv(vm.read(r.st,ob,0,8),8,class_double) for ob in(s,o_)]
                for nm,g,ok in(('slope is 1/A',gs,slope_ok),('offset is -B (or -B/A)',go,offset_ok)):
                    if isinstance(g,float): U.result('%s of channel %d'%(nm,ch),ok(ch,g))
                    else: raise Unsupported('slope of a thermal channel depends on the file')
                continue
            for ob,fl in((s,'Cal_Slope'),(o_,'Cal_Offset')):
                if U.equal(vm,r.st,vm.conv(vm.read(r.st,ob,0,8),8,class_double),cal(ch,fl)(r.st),'%s of channel %d'%(fl,ch),64): U.ok('%s of channel %d'%(fl,ch))
            frame(U,vm,r,this,arr)
