"""C19: derived rasters (gdal/reflectance): cosine of the solar zenith angle, satellite zenith angle, day of the year, reflectance"""
import re, math, build, layout
from gdalspec import Ext,fn,fpv,ptr_is,slots,setint
from drvspec import ptr_under
D='gdal/reflectance/'; NS='msat::utils::'
INC='#include <gdal/reflectance/reflectance.h>\n#include <gdal/reflectance/pixeltolatlon.h>\n'+''.join('#include <%s%s.cpp>\n'%(D,f) for f in('cos_sol_za','sat_za','jday'))+'using namespace msat::utils; static int z_=sizeof(CosSolZARasterBand)+sizeof(SatZARasterBand)+sizeof(JDayRasterBand)+sizeof(SingleChannelReflectanceRasterBand)+sizeof(Reflectance39RasterBand)+sizeof(ReflectanceDataset)+sizeof(PixelToLatlon)+sizeof(CosSolZADataset)+sizeof(SatZADataset)+sizeof(JDayDataset);'
_l=[]
def lay():
    if not _l: _l.append(layout.dump(INC))
    return _l[0]
def off(cls,path):
    from sym import Unsupported
    if cls not in lay(): raise Unsupported('no class %s on this tree'%cls)
    for l in lay()[cls][1]:
        if l[6]==path or l[6].endswith('.'+path) and all('::' in c or c.startswith('GDAL') for c in re.split(r'\.',l[6][:-len(path)-1])): return l[1]
    raise Unsupported('%s has no member %s on this tree'%(cls,path))
A8=lambda n: __import__('z3').Array(n,__import__('z3').BitVecSort(64),__import__('z3').BitVecSort(8))
def obj(vm,st,name,cls,**kw):
    o=vm.new(st,name,lay()[cls][0],'heap',A8(name),const=False)
    for n,v in kw.items():
        ty=[x[2] for x in lay()[cls][1] if x[1]==off(cls,n) and x[6].split('.')[-1]==n][0]; vm.write(st,o,off(cls,n),8 if '*' in ty else {'double':8,'_Bool':1,'int16_t':2,'std::string':32}.get(ty,4),v)
    return o
DOC='functions of the GDAL library have their documented meaning'
# formulas ----------------------------------------------------------------------------------------------------------
def cosza(): 
    import z3
    F=z3.Float64(); return z3.Function('cos_sol_za',z3.BitVecSort(32),F,F,F,F)
def satza():
    import z3
    F=z3.Float64(); return z3.Function('sat_za',F,F,F)
def clamp(v,hi):
    """NaN and values too small for a normal number are 0, the rest is limited to 0..hi"""
    import z3
    z=z3.FPVal(0,v.sort()); h=z3.FPVal(hi,v.sort()); return z3.If(z3.Or(z3.fpIsNaN(v),z3.fpLEQ(v,z)),z,z3.If(z3.fpGT(v,h),h,v))
def block(vm,st,prog,E):
    vm.abstract_fp=True
    # size of a block; positions of its pixels as PixelToLatlon::compute delivers them
    import z3
    from sym import Ptr,bv,norm,Unsupported,bits_fp
    g={}; g['bx'],g['by']=z3.BitVec('bx',32),z3.BitVec('by',32); n32=z3.Concat(z3.BitVecVal(0,1),z3.BitVec('N',31)); vm.products=[(g['bx'],g['by'],n32)]; N=z3.ZeroExt(32,n32); g['N']=N
    st.assume(g['bx']>=1); st.assume(g['by']>=1); st.assume(n32>=1); vm.assumptions.add('the number of pixels of a block is representable in an int')
    g['xb'],g['yb']=z3.BitVec('xblock',32),z3.BitVec('yblock',32); g['bytes']=norm(z3.simplify(8*N))
    W={n:z3.Array(n,z3.BitVecSort(64),z3.BitVecSort(64)) for n in('latitude','longitude')}
    def base(n):
        def f(c,s,at,k):
            if k!=8: raise Unsupported('part of a number')
            return z3.Select(W[n],bv(at,64))
        return f
    src={n:vm.new(st,n,g['bytes'],'heap',base(n)) for n in W}
    g['lat'],g['lon']=(lambda k: bits_fp(z3.Select(W['latitude'],8*k),8)),(lambda k: bits_fp(z3.Select(W['longitude'],8*k),8))
    def compute(v,s,a,I):
        s.ghost['compute']=s.ghost.get('compute',())+(tuple(a),)
        for p,n in((a[5],'latitude'),(a[6],'longitude')):
            (c,q),=v.resolve(s,p); v.chk(s,True,q,g['bytes'],'positions are delivered into memory that holds them'); v.copy(s,q.obj,q.off,src[n],0,g['bytes'])
        return None
    E.free(prog,{NS+r'PixelToLatlon::compute\(':compute,r'msat::facts::cos_sol_za\(int, ':lambda v,s,a,I: cosza()(bv(a[0],32),*[fpz_(x) for x in a[1:]]),r'msat::facts::sat_za\(':lambda v,s,a,I: satza()(*[fpz_(x) for x in a])})
    vm.assumptions.add('zenith angle functions by contract (proved in C10)'); return g
def fpz_(x):
    from sym import fpz
    return fpz(x,8)
def computed(U,vm,s,g,p2ll):
    import z3
    from sym import bv
    c=s.ghost.get('compute',()); U.result('positions of the pixels are computed',len(c)>=1)
    for a in c: ptr_under(vm,s,a[0],p2ll,'positions are those of the raster'); vm.oblige(s,z3.And(bv(a[1],32)==g['xb']*g['bx'],bv(a[2],32)==g['yb']*g['by'],bv(a[3],32)==g['bx'],bv(a[4],32)==g['by']),'positions are those of the pixels of the block')
ANGLE={'cos_sol_za':('CosSolZARasterBand',1.0),'sat_za':('SatZARasterBand',math.pi)}
def unit_angle(kind,known):
    """block of a zenith angle raster"""
    def f(U):
        import z3
        from sym import State,Ptr,bv,norm
        cls,hi=ANGLE[kind]; cls=NS+cls; prog=U.prog([build.emit_ir(D+kind+'.cpp')]); vm=U.vm(prog); st=State(); E=Ext(vm); vm.assumptions.add(DOC); g=block(vm,st,prog,E); p2=vm.new(st,'p2ll',lay()[NS+'PixelToLatlon'][0],'heap',A8('p2ll'),const=False)
        kw=dict(nBlockXSize=g['bx'],nBlockYSize=g['by'],p2ll=Ptr(p2,0)); jd,dt=z3.BitVec('jday',32),fpv('daytime')
        if kind=='cos_sol_za': kw.update(jday=jd,daytime=dt)
        b=obj(vm,st,'band',cls,**kw); buf=vm.new(st,'block',g['bytes'],'heap',A8('block'),const=False); k=z3.ZeroExt(33,z3.BitVec('k',31)); n=0
        v=cosza()(jd,dt,g['lat'](k),g['lon'](k)) if kind=='cos_sol_za' else satza()(g['lat'](k),g['lon'](k))
        U.on_model=lambda ev,ob:(kind,)+tuple(ev(z3.fpToIEEEBV(x)).as_long() for x in(g['lat'](k),g['lon'](k)))
        for out in U.rets(vm,vm.call_fn(fn(prog,cls+r'::IReadBlock\('),[Ptr(b,0),g['xb'],g['yb'],Ptr(buf,0)],st),what='IReadBlock'):
            s=out.st; n+=1; vm.oblige(s,bv(out.val,32)==0,'the block is delivered'); computed(U,vm,s,g,p2); s=s.fork(); s.assume(z3.ULT(k,g['N'])); got=vm.read(s,buf,norm(z3.simplify(8*k)),8)
            known(U,vm,s,got,v,hi)
        U.result('a block can be delivered',n>0)
    return f
def in_range(U,vm,s,got,v,hi):
    import z3
    from sym import fpz,bits_fp,TRUE
    x=fpz_(got) if isinstance(got,z3.FPRef) else bits_fp(got,8); vm.oblige(s,z3.And(z3.Not(z3.fpIsNaN(x)),z3.fpGEQ(x,z3.FPVal(0,z3.Float64())),z3.fpLEQ(x,z3.FPVal(hi,z3.Float64()))),'a pixel is a number in its range')
    w=clamp(v,hi); z=z3.FPVal(0,z3.Float64()); one=z3.FPVal(1,z3.Float64()); good=z3.Or(z3.fpEQ(x,w),z3.And(z3.fpIsSubnormal(v),z3.fpEQ(x,z)))
    if hi==1.0: vm.oblige(s,good,'a pixel is the value at its position, limited to its range'); return
    a,b=s.fork(),s.fork(); a.assume(z3.Not(z3.fpGT(v,one))); b.assume(z3.fpGT(v,one))
    vm.oblige(a,good,'a pixel is the angle at its position, limited to its range'); vm.oblige(b,z3.Or(good,z3.fpEQ(x,one)),'an angle over one radian is kept, or cut to one radian'); vm.oblige(b,good,'an angle over one radian is kept')
# blocks of reflectance ---------------------------------------------------------------------------------------------
COS80=0.173648178
TR={1:20.76,2:23.24,3:19.85,12:25.11}
def low(c):
    import z3
    return z3.If(z3.fpLT(c,z3.FPVal(COS80,z3.Float64())),z3.FPVal(COS80,z3.Float64()),c)
def ops():
    import z3
    R=z3.RNE(); c=lambda x: z3.FPVal(x,z3.Float64()) if isinstance(x,(int,float)) else x
    class A:
        def __init__(s,v): s.v=c(v)
        def __add__(s,o): return A(z3.fpAdd(R,s.v,A.of(o)))
        def __radd__(s,o): return A(z3.fpAdd(R,A.of(o),s.v))
        def __sub__(s,o): return A(z3.fpSub(R,s.v,A.of(o)))
        def __rsub__(s,o): return A(z3.fpSub(R,A.of(o),s.v))
        def __mul__(s,o): return A(z3.fpMul(R,s.v,A.of(o)))
        def __rmul__(s,o): return A(z3.fpMul(R,A.of(o),s.v))
        def __truediv__(s,o): return A(z3.fpDiv(R,s.v,A.of(o)))
        def __rtruediv__(s,o): return A(z3.fpDiv(R,A.of(o),s.v))
        def __neg__(s): return A(z3.fpNeg(s.v))
        @staticmethod
        def of(o): return o.v if isinstance(o,A) else c(float(o))
    def m(n,*a):
        from sym import fmath
        return A(fmath(n,[x.v if isinstance(x,A) else float(x) for x in a],8))
    return A,m
class Conc:
    """the same formulas on numbers"""
def conc():
    def m(n,*a):
        try: return getattr(math,n)(*a)
        except OverflowError: return math.inf
        except ValueError: return math.nan
    return (lambda x: x),m
def esd(jd3,m): return 1.0-0.0167*m('cos',2.0*math.pi*jd3/365.0)   # jd3: day of the year less 3
def single(raw,slope,offset,cza,tr): return 100.0*(raw*slope+offset)/tr/cza
def refl39(raw,sl,of,cza,sat,jd3,m,le):
    """reflectance at 3.9 um from the counts at 3.9, 10.8 and 13.4 um (MSGProc version of Mecikalski et al. 2010); le(a,b,x): x when a<=b, else a"""
    c1,c2,V,A,B=0.0000119104,1.43877,2569.094,0.9959,3.471; b39,b108,b134=(r*s+o for r,s,o in zip(raw,sl,of)); d=b108-(b108-b134)/4
    t=m('pow',m('pow',b39,4)+m('pow',b108,4)-m('pow',d,4),0.25); planck=lambda x: c1*(V*V*V)/(m('exp',c2*V/(A*x+B))-1)
    tot=planck(t)+0.015; corr=m('pow',(b108-0.25*(b108-b134))/b108,4); therm=planck(b108)*corr; e=esd(jd3,m)
    toa=4.92/(e*e)*m('pow',cza,0.75)*m('exp',-(1-corr)*cza)*m('exp',-(1-corr)/m('cos',sat)); tot=le(tot,therm,therm+0.0000001); toa=le(toa,therm,therm+0.0000001); return 100*(tot-therm)/toa
def raster(vm,st,prog,E,g,srcs,fail):
    """source bands: their counts, by number of the read that fails"""
    import z3
    from sym import Ptr,bv,Unsupported,norm
    W={o.id:z3.Array('counts of '+o.name,z3.BitVecSort(64),z3.BitVecSort(64)) for o in srcs}; mem={}
    for o in srcs:
        def base(c,s,at,k,w=W[o.id]):
            if k!=8: raise Unsupported('part of a number')
            return z3.Select(w,bv(at,64))
        mem[o.id]=vm.new(st,'counts of '+o.name,g['bytes'],'heap',base)
    def io(v,s,a,I):
        (c,q),=v.resolve(s,a[0])
        if q.obj not in srcs: raise Unsupported('counts of an unknown band')
        n=s.ghost.get('reads',()); s.ghost['reads']=n+((q.obj.name,)+tuple(a[1:]),)
        if srcs.index(q.obj)==fail: return 3
        (c,d),=v.resolve(s,a[6]); v.chk(s,True,d,g['bytes'],'counts are delivered into memory that holds them'); v.copy(s,d.obj,d.off,mem[q.obj.id],0,g['bytes'])
        r=z3.BitVec('readcode%d'%len(n),32); s.assume(z3.Or(r==0,r==1,r==2)); return r
    E.free(prog,{r'GDALRasterBand::RasterIO\(':io}); from sym import bits_fp
    return lambda o,k: bits_fp(z3.Select(W[o.id],8*k),8)
def reads_ok(U,vm,s,g,srcs,upto):
    import z3
    from sym import bv,Ptr
    R=s.ghost.get('reads',()); U.result('the counts of each source are read once',sorted(r[0] for r in R)==sorted(o.name for o in srcs) if upto is None else len({r[0] for r in R})==len(R))
    for r in R:
        vm.oblige(s,z3.And(bv(r[1],32)==0,bv(r[2],32)==g['xb']*g['bx'],bv(r[3],32)==g['yb']*g['by'],*[bv(r[i],32)==g['bx'] for i in(4,7)],*[bv(r[i],32)==g['by'] for i in(5,8)],bv(r[9],32)==7,bv(r[10],64)==0,bv(r[11],64)==0),'counts are those of the pixels of the block')
def unit_refl(kind,fail=None):
    """block of a reflectance raster; `fail`: number of the source that cannot be read"""
    def f(U):
        import z3
        from sym import State,Ptr,bv,norm,fpz,bits_fp
        cls=NS+('SingleChannelReflectanceRasterBand' if kind=='single' else 'Reflectance39RasterBand'); prog=U.prog([build.emit_ir(D+'reflectance.cpp')]); vm=U.vm(prog); st=State(); E=Ext(vm); vm.assumptions.add(DOC); g=block(vm,st,prog,E)
        p2=vm.new(st,'p2ll',lay()[NS+'PixelToLatlon'][0],'heap',A8('p2ll'),const=False); ch=['source'] if kind=='single' else['ir039','ir108','ir134']; srcs=[vm.new(st,c,1024,'heap',A8(c),const=False) for c in ch]; counts=raster(vm,st,prog,E,g,srcs,fail)
        jd,dt,tr=z3.BitVec('jday',32),fpv('daytime'),fpv('tr'); st.assume(z3.And(jd>=1,jd<=366)); sl=[fpv('slope '+c) for c in ch]; of=[fpv('offset '+c) for c in ch]
        kw=dict(nBlockXSize=g['bx'],nBlockYSize=g['by'],p2ll=Ptr(p2,0),jday=jd,daytime=dt)
        if kind=='single': kw.update(source_rb=Ptr(srcs[0],0),tr=tr,rad_slope=sl[0],rad_offset=of[0])
        else:
            for i,c in enumerate(ch): kw.update({'source_'+c:Ptr(srcs[i],0),c+'_slope':sl[i],c+'_offset':of[i]})
        b=obj(vm,st,'band',cls,**kw); k=z3.ZeroExt(33,z3.BitVec('k',31)); n=0; px=norm(z3.simplify(4*g['N'])); buf=vm.new(st,'block',px,'heap',A8('block'),const=False)
        A,m=ops(); cza=low(cosza()(jd,dt,g['lat'](k),g['lon'](k))); raw=[counts(o,k) for o in srcs]
        if kind=='single': v=single(A(raw[0]),A(sl[0]),A(of[0]),A(cza),A(tr)).v
        else: v=refl39([A(x) for x in raw],[A(x) for x in sl],[A(x) for x in of],A(cza),A(satza()(g['lat'](k),g['lon'](k))),A(z3.fpSignedToFP(z3.RNE(),jd-3,z3.Float64())),m,lambda a,b,x: A(z3.If(z3.fpLEQ(a.v,b.v),x.v,a.v))).v
        v=z3.fpFPToFP(z3.RNE(),v,z3.Float32()); w=clamp(v,100.0); z=z3.FPVal(0,z3.Float32())
        U.on_model=lambda ev,ob:(kind,fail)+tuple(ev(z3.fpToIEEEBV(x)).as_long() for x in raw+sl+of)
        for out in U.rets(vm,vm.call_fn(fn(prog,cls+r'::IReadBlock\('),[Ptr(b,0),g['xb'],g['yb'],Ptr(buf,0)],st),what='IReadBlock'):
            s=out.st; n+=1; r=bv(out.val,32); reads_ok(U,vm,s,g,srcs,fail)
            if fail is not None: vm.oblige(s,r==3,'a source that cannot be read is an error'); continue
            vm.oblige(s,r==0,'the block is delivered'); computed(U,vm,s,g,p2); s=s.fork(); s.assume(z3.ULT(k,g['N'])); got=vm.read(s,buf,norm(z3.simplify(4*k)),4)
            x=fpz(got,4) if isinstance(got,(z3.FPRef,float)) else bits_fp(got,4)
            vm.oblige(s,z3.And(z3.Not(z3.fpIsNaN(x)),z3.fpGEQ(x,z),z3.fpLEQ(x,z3.FPVal(100,z3.Float32()))),'a pixel is a number between 0 and 100')
            vm.oblige(s,z3.Or(z3.fpEQ(x,w),z3.And(z3.fpIsSubnormal(v),z3.fpEQ(x,z))),'a pixel is the reflectance at its position, limited to its range')
        U.result('a block can be delivered',n>0)
    return f
def unit_jday(U):
    """block of a day of the year raster"""
    import z3
    from sym import State,Ptr,bv,norm
    cls=NS+'JDayRasterBand'; prog=U.prog([build.emit_ir(D+'jday.cpp')]); vm=U.vm(prog); st=State(); E=Ext(vm); g=block(vm,st,prog,E); jd=z3.BitVec('jday',16); b=obj(vm,st,'band',cls,nBlockXSize=g['bx'],nBlockYSize=g['by'],jday=jd)
    buf=vm.new(st,'block',norm(z3.simplify(2*g['N'])),'heap',A8('block'),const=False); k=z3.ZeroExt(33,z3.BitVec('k',31))
    for out in U.rets(vm,vm.call_fn(fn(prog,cls+r'::IReadBlock\('),[Ptr(b,0),g['xb'],g['yb'],Ptr(buf,0)],st),what='IReadBlock'):
        s=out.st; vm.oblige(s,bv(out.val,32)==0,'the block is delivered'); s=s.fork(); s.assume(z3.ULT(k,g['N'])); U.equal(vm,s,vm.read(s,buf,norm(z3.simplify(2*k)),2),jd,'a pixel is the day of the year',16)
# setting up --------------------------------------------------------------------------------------------------------
def strings(vm,prog):
    """std::string by contract: a string made of a C string is known by it; others carry diagnostics"""
    import contracts
    from sym import Ptr,PtrIte
    def keep(v,s,a,I):
        (c,q),=v.resolve(s,a[0]); v.write(s,q.obj,q.off,8,a[1]); return a[0] if I is not None and I.ty.k=='ptr' else None
    def get(v,s,a,I):
        (c,q),=v.resolve(s,a[0]); return v.read(s,q.obj,q.off,8)
    al=[(a,prog.dem.get(b,b)) for m in prog.mods for a,b in m.aliases.items()]
    for nm,d in list(prog.dem.items())+al:
        d=d.replace('[abi:cxx11]','')
        if re.match(r'std::__cxx11::basic_string<char.*>::(operator=|assign)\(char const\*\)',d): vm.contracts[nm]=keep
        if re.match(r'std::__cxx11::basic_string<char.*>::(c_str|data)\(\) const$',d): vm.contracts[nm]=get
    contracts.opaque_strings(vm,prog,but=r'operator=|operator!=|compare|::assign|::c_str|::data')
def throws(U,vm,outs,what):
    """(normal returns, throws)"""
    import z3
    n=[o for o in outs if o.kind=='ret']; t=[o for o in outs if o.kind=='throw']
    for o in outs:
        if o.kind not in('ret','throw'): vm.oblige(o.st,z3.BoolVal(False),'%s: no %s'%(what,o.kind),'outcome')
    return n,t
def unit_positions_setup(U):
    """PixelToLatlon of a dataset: its geotransform and the transformation to geographic coordinates, longitude first"""
    import z3
    from sym import State,Ptr,bv,Outcome
    prog=U.prog([build.emit_ir(D+'pixeltolatlon.cpp')]); vm=U.vm(prog); vm.assumptions.add(DOC); strings(vm,prog); cls=NS+'PixelToLatlon'; n=[0,0]; al=[(a,prog.dem.get(b,b)) for m in prog.mods for a,b in m.aliases.items()]
    for has in('all','geotransform','projection','geographic','transformation'):
        st=State(); E=Ext(vm); g=[fpv('g%d'%i) for i in range(6)]
        mk=lambda nm: vm.new(st,nm,512,'heap',A8(nm),const=False)
        src,pj,ll,tr=mk('source projection'),mk('projection'),mk('geographic'),mk('transformation')
        def gt(v,s,a,I):
            r=z3.BitVec('gtcode',32); s.assume(r==0 if has!='geotransform' else r!=0)
            if has!='geotransform':
                for i in range(6): (c,q),=v.resolve(s,a[1]); v.write(s,q.obj,q.off+8*i if isinstance(q.off,int) else q.off+8*i,8,g[i])
            return r
        ds=E.new(st,'ds','GDALDataset',dict(GetGeoTransform=gt,GetSpatialRef=lambda v,s,a,I: Ptr(None,0) if has=='projection' else Ptr(src,0)))
        ev=[]
        def rec(nm,r): return lambda v,s,a,I:(s.ghost.__setitem__(nm,s.ghost.get(nm,())+(tuple(a),)),r)[1]
        E.free(prog,{r'OGRSpatialReference::Clone\(\) const':rec('clone',Ptr(pj,0)),r'OGRSpatialReference::CloneGeogCS\(\) const':rec('geog',Ptr(None,0) if has=='geographic' else Ptr(ll,0)),r'OGRSpatialReference::SetAxisMappingStrategy\(':rec('axis',None),r'OGRCreateCoordinateTransformation(\(|$)':rec('create',Ptr(None,0) if has=='transformation' else Ptr(tr,0))})
        for nm in list(prog.funcs):
            if nm=='OGRCreateCoordinateTransformation': vm.contracts[nm]=rec('create',Ptr(None,0) if has=='transformation' else Ptr(tr,0))
        for o in(pj,ll,tr):
            vt=vm.new(st,o.name+'.vtable',1600,'heap',A8(o.name+'.vt'),const=False)
            from sym import FnPtr
            for k in range(200):
                f='virtual slot %d of %s'%(k,o.name); vm.write(st,vt,8*k,8,FnPtr(f)); vm.contracts[f]=rec('virtual',None) if o is tr else rec('deleted',None)
            vm.write(st,o,0,8,Ptr(vt,0))
        this=obj(vm,st,'this',cls); f=fn(prog,cls+r'::PixelToLatlon\(')
        rt,th=throws(U,vm,vm.call_fn(f,[Ptr(this,0),Ptr(ds,0)],st),'PixelToLatlon')
        if has!='all': U.result('a dataset without %s is refused'%has,bool(th) and not any(vm.feasible_pc(o.st) for o in rt)); continue
        U.result('positions of a complete dataset are known',bool(rt) and not any(vm.feasible_pc(o.st) for o in th))
        for o in rt:
            s=o.st
            for i in range(6): U.equal(vm,s,vm.read(s,this,off(cls,'geoTransform')+8*i,8),g[i],'geotransform coefficient %d is that of the dataset'%i,64)
            for m,x in(('proj',pj),('latlon',ll),('toLatLon',tr)): ptr_under(vm,s,vm.read(s,this,off(cls,m),8),x,m+' is kept')
            G=s.ghost; one=lambda k,i,x: (U.result(k+' once',len(G.get(k,()))==1),[ptr_under(vm,s,a[i],x,'%s: argument %d'%(k,i)) for a in G.get(k,())])
            one('clone',0,src); one('create',0,pj); one('create',1,ll)
            U.result('geographic coordinates of the projection',len(G.get('geog',()))==1 and isinstance(G['geog'][0][0],Ptr) and G['geog'][0][0].obj in(pj,src)); x=G.get('axis',()); U.result('the axis order is set',len(x)>=1)
            if x: ptr_under(vm,s,x[-1][0],ll,'axis order of the geographic coordinates'); vm.oblige(s,bv(x[-1][1],32)==0,'longitude first')
def unit_positions(rows):
    """positions of the pixels of a block of `rows` rows: the corner of each pixel through the geotransform, transformed"""
    def f(U):
        import z3
        from sym import State,Ptr,bv,norm,FnPtr
        prog=U.prog([build.emit_ir(D+'pixeltolatlon.cpp')]); vm=U.vm(prog); st=State(); cls=NS+'PixelToLatlon'; vm.abstract_fp=True; g=[fpv('g%d'%i) for i in range(6)]; tr=vm.new(st,'transformation',512,'heap',A8('transformation'),const=False); this=obj(vm,st,'this',cls,toLatLon=Ptr(tr,0))
        for i in range(6): vm.write(st,this,off(cls,'geoTransform')+8*i,8,g[i])
        x,y,sx=z3.BitVec('x',32),z3.BitVec('y',32),z3.Concat(z3.BitVecVal(0,6),z3.BitVec('sx',26)); st.assume(z3.And(sx>=1,x>=0,y>=0,x<=1<<26,y<=1<<26)); N=norm(z3.simplify(8*rows*z3.ZeroExt(32,sx))); la,lo=(vm.new(st,n,N,'heap',A8(n),const=False) for n in('lats','lons'))
        def transform(v,s,a,I):
            k=z3.ZeroExt(38,z3.BitVec('k',26)); s.ghost['transform']=s.ghost.get('transform',())+(tuple(a),)
            v.oblige(s,bv(a[1],I_w(a[1]))==(z3.Extract(31,0,z3.simplify(rows*z3.ZeroExt(32,sx))) if I_w(a[1])==32 else rows*z3.ZeroExt(32,sx)),'every position is transformed')
            ptr_under(v,s,a[2],lo,'eastings become longitudes'); ptr_under(v,s,a[3],la,'northings become latitudes')
            s2=s.fork(); s2.assume(z3.ULT(k,z3.ZeroExt(32,sx))); F=lambda e: z3.fpSignedToFP(z3.RNE(),e,z3.Float64()); R=z3.RNE()
            for r in range(rows):
                at=norm(z3.simplify(8*(r*z3.ZeroExt(32,sx)+k))); ix,iy=F(x+z3.Extract(31,0,k)),F(y+r)
                for o,b,n in((la,3,'northing'),(lo,0,'easting')): U.equal(v,s2,v.read(s2,o,at,8),z3.fpAdd(R,z3.fpAdd(R,g[b],z3.fpMul(R,g[b+1],ix)),z3.fpMul(R,g[b+2],iy)),'%s of a pixel, row %d'%(n,r),64)
            return z3.BitVec('transformed',32)
        I_w=lambda e: e.size() if isinstance(e,z3.BitVecRef) else 64
        vt=vm.new(st,'transformation.vtable',1600,'heap',A8('vt'),const=False)
        for i in range(200):
            n='virtual slot %d of the transformation'%i; vm.write(st,vt,8*i,8,FnPtr(n)); vm.contracts[n]=transform
        vm.write(st,tr,0,8,Ptr(vt,0))
        Ext(vm).free(prog,{r'OGRCoordinateTransformation::Transform\(':transform})
        for o in U.rets(vm,vm.call_fn(fn(prog,cls+r'::compute\('),[Ptr(this,0),x,y,sx,rows,Ptr(la,0),Ptr(lo,0)],st),what='compute'): U.result('positions are transformed once',len(o.st.ghost.get('transform',()))==1)
    return f

FMT=b"%04d-%02d-%02d %02d:%02d:%02d"
def one(vm,s,p):
    from sym import Ptr,Unsupported
    r=vm.resolve(s,p)
    if len(r)!=1 or not isinstance(r[0][1],Ptr): raise Unsupported('conditional pointer')
    return r[0][1]
def rec(key,r=None):
    def h(v,s,a,I):
        s.ghost[key]=s.ghost.get(key,())+(tuple(a),)
        return r(v,s,a) if callable(r) else r
    return h
def named(vm,prog,table):
    al=[(a,prog.dem.get(b,b)) for m in prog.mods for a,b in m.aliases.items()]
    for nm,d in list(prog.dem.items())+al:
        d=d.replace('[abi:cxx11]','')
        for rx,h in table.items():
            if re.match(rx,d): vm.contracts[nm]=h
def timeparts(vm,prog,datetime,ok):
    """sscanf of the time of the dataset, and the day of the year"""
    import z3, models
    from sym import bv,Unsupported
    T=[z3.BitVec(n,32) for n in('year','month','day','hour','minute','second')]; J=z3.Function('jday',*[z3.BitVecSort(32)]*4)
    def scan(v,s,a,I):
        q=one(v,s,a[0]); fm=models.cstr_bytes(v,s,a[1])
        if q.obj is not datetime or fm!=FMT: raise Unsupported('time read with %r'%fm)
        s.ghost['scanned']=s.ghost.get('scanned',0)+1
        if not ok: r=z3.BitVec('fields',32); s.assume(r!=6); return r
        for p,x in zip(a[2:],T): p=one(v,s,p); v.write(s,p.obj,p.off,4,x)
        return 6
    for n in('sscanf','__isoc99_sscanf','__isoc23_sscanf'): vm.contracts[n]=scan
    named(vm,prog,{r'msat::facts::jday\(':lambda v,s,a,I: J(*[bv(x,32) for x in a])}); vm.assumptions.add('sscanf reads the numbers of the time; jday by contract (proved in C10)')
    return T,J(*T[:3])
def bandenv(U,src,ok=True):
    """a dataset of known time whose band is being made"""
    import z3
    from sym import State,Ptr
    prog=U.prog([build.emit_ir(D+src)]); vm=U.vm(prog); st=State(); E=Ext(vm); vm.assumptions.add(DOC); strings(vm,prog); vm.abstract_fp=True
    dt=vm.new(st,'time of the dataset',32,'heap',A8('time')); T,jd=timeparts(vm,prog,dt,ok)
    named(vm,prog,{r'GDALRasterBand::(GDALRasterBand|~GDALRasterBand)\(\)':lambda v,s,a,I:None,NS+r'ProxyRasterBand::add_info\(':rec('info'),NS+r'PixelToLatlon::PixelToLatlon\(':rec('positions'),NS+r'PixelToLatlon::~PixelToLatlon\(\)':rec('forgotten')})
    return prog,vm,st,E,dt,T,jd
def daytime(T):
    import z3
    F=lambda e: z3.fpSignedToFP(z3.RNE(),e,z3.Float64()); R=z3.RNE(); return z3.fpAdd(R,F(T[3]),z3.fpDiv(R,F(T[4]),z3.FPVal(60,z3.Float64())))
def checkband(U,vm,s,b,cls,ds,idx,typ,T,jd,pos=True,jw=4,src=None,day=True):
    import z3
    from sym import bv,Ptr
    rd=lambda m,k: vm.read(s,b,off(cls,m),k)
    ptr_under(vm,s,rd('poDS',8),ds,'the band belongs to the dataset'); vm.oblige(s,bv(rd('nBand',4),32)==idx,'number of the band'); vm.oblige(s,bv(rd('eDataType',4),32)==typ,'type of the pixels')
    if jw and day is not None: U.equal(vm,s,rd('jday',jw),z3.Extract(8*jw-1,0,jd) if jw<4 else jd,'day of the year of the dataset',8*jw)
    if day: U.equal(vm,s,rd('daytime',8),daytime(T),'time of the day, in hours',64)
    if pos:
        p=s.ghost.get('positions',()); U.result('positions come from the dataset',len(p)==1)
        for a in p: ptr_under(vm,s,a[1],ds,'positions come from the dataset'); q=one(vm,s,a[0]); ptr_under(vm,s,rd('p2ll',8),q.obj,'positions are kept',q.off)
        U.result('positions are not released',not s.ghost.get('forgotten'))
    i=s.ghost.get('info',()); U.result('description of the source',len(i)>=1)
    if src is not None:
        for a in i: ptr_under(vm,s,a[0],b,'the band is described'); ptr_under(vm,s,a[1],src,'the description is that of the source band')
BANDS={'cos_sol_za':('CosSolZA',7,True,4,True),'sat_za':('SatZA',7,True,0,False),'jday':('JDay',3,False,2,False)}
def unit_band(kind):
    """the band of a derived raster knows its dataset, day, time and positions"""
    def f(U):
        import z3
        from sym import Ptr,bv
        n,typ,pos,jw,day=BANDS[kind]; cls=NS+n+'RasterBand'; dcls=NS+n+'Dataset'
        for ok in(1,0):
            if kind=='sat_za' and not ok: continue
            prog,vm,st,E,dt,T,jd=bandenv(U,kind+'.cpp',ok); ds=obj(vm,st,'dataset',dcls); vm.write(st,ds,off(dcls,'datetime'),8,Ptr(dt,0)); src=vm.new(st,'source band',1024,'heap',A8('source band'),const=False); b=obj(vm,st,'band',cls); i=z3.BitVec('number',32)
            rt,th=throws(U,vm,vm.call_fn(fn(prog,cls+r'::%sRasterBand\('%n),[Ptr(b,0),Ptr(ds,0),i,Ptr(src,0)],st),'making the band')
            if not ok: U.result('a dataset of unreadable time is refused',bool(th) and not any(vm.feasible_pc(o.st) for o in rt)); continue
            U.result('the band is made',bool(rt) and not any(vm.feasible_pc(o.st) for o in th))
            for o in rt: checkband(U,vm,o.st,b,cls,ds,i,typ,T,jd,pos,jw,src,day)
    return f
def unit_dataset(kind):
    """a derived dataset is described by its source, and has the derived band"""
    def f(U):
        import z3
        from sym import State,Ptr,bv
        n=BANDS[kind][0]; dcls=NS+n+'Dataset'; bcls=NS+n+'RasterBand'; prog=U.prog([build.emit_ir(D+kind+'.cpp')]); vm=U.vm(prog); st=State(); strings(vm,prog); vm.assumptions.add(DOC)
        src,rb=vm.new(st,'source',1024,'heap',A8('source'),const=False),vm.new(st,'source band',1024,'heap',A8('source band'),const=False); ds=obj(vm,st,'dataset',dcls)
        named(vm,prog,{r'GDALDataset::(GDALDataset|~GDALDataset)\(\)':lambda v,s,a,I:None,NS+r'ProxyDataset::add_info\(':rec('info'),r'GDALDataset::GetRasterBand\(':rec('asked',Ptr(rb,0)),bcls+r'::%sRasterBand\('%n:rec('made'),r'GDALDataset::SetBand\(':rec('setband')})
        for o in U.rets(vm,vm.call_fn(fn(prog,dcls+r'::%sDataset\('%n),[Ptr(ds,0),Ptr(src,0)],st),what='making the dataset'):
            s=o.st; G=s.ghost; i=G.get('info',()); U.result('the dataset is described once',len(i)==1)
            for a in i: ptr_under(vm,s,a[0],ds,'the dataset is described'); ptr_under(vm,s,a[1],src,'the description is that of the source')
            q=G.get('asked',()); U.result('the first band of the source',len(q)>=1)
            for a in q: ptr_under(vm,s,a[0],src,'the band is one of the source'); vm.oblige(s,bv(a[1],32)==1,'the first band of the source')
            m,b=G.get('made',()),G.get('setband',()); U.result('one band is made and set',len(m)==1 and len(b)==1)
            for a,c in zip(m,b):
                ptr_under(vm,s,a[1],ds,'the band is made for the dataset'); vm.oblige(s,bv(a[2],32)==1,'the band made is number 1'); ptr_under(vm,s,a[3],rb,'the band is made from the one of the source'); w=one(vm,s,a[0])
                ptr_under(vm,s,c[0],ds,'the band is set on the dataset'); vm.oblige(s,bv(c[1],32)==1,'the band set is number 1'); ptr_under(vm,s,c[2],w.obj,'the band set is the one made',w.off)
            vm.oblige(s,bv(vm.read(s,ds,off(dcls,'has_sources'),1),8)==0,'the description comes first')
    return f
# reflectance: bands and dataset --------------------------------------------------------------------------------------
RDS=NS+'ReflectanceDataset'
def rds(vm,st,ch,dt,sources):
    """a ReflectanceDataset for channel `ch` with the given source bands (by channel)"""
    from sym import Ptr
    ds=obj(vm,st,'dataset',RDS,channel_id=ch); vm.write(st,ds,off(RDS,'datetime'),8,Ptr(dt,0))
    for i in range(12): o=sources.get(i+1); vm.write(st,ds,off(RDS,'sources')+8*i,8,Ptr(o,0) if o else Ptr(None,0))
    return ds
def sourceband(E,st,name,noscale=False,nooffset=False):
    import z3
    v=dict(scale=fpv('scale of '+name),offset=fpv('offset of '+name))
    def val(k,no):
        def f(vm,s,a,I):
            from sym import Ptr
            if no: setint(vm,s,a[1],0)
            else: r=z3.BitVec('ok %s %s'%(k,name),32); s.assume(r!=0); setint(vm,s,a[1],r)
            return v[k]
        return f
    return E.new(st,name,'GDALRasterBand',dict(GetScale=val('scale',noscale),GetOffset=val('offset',nooffset))),v
def esd_sym(jd):
    import z3
    A,m=ops(); return esd(A(z3.fpSignedToFP(z3.RNE(),jd-3,z3.Float64())),m)
def unit_single_band(U):
    """the band of a reflectance knows its source, its calibration and the solar irradiance of its channel"""
    import z3
    from sym import Ptr,bv
    cls=NS+'SingleChannelReflectanceRasterBand'; made=0
    for ch in(1,2,3,12,None):
        for why in('','time','source','scale','offset'):
            if ch is None and why: continue
            prog,vm,st,E,dt,T,jd=bandenv(U,'reflectance.cpp',why!='time'); st.assume(z3.And(jd>=1,jd<=366)); i=z3.BitVec('number',32); c=z3.BitVec('channel',32) if ch is None else ch
            if ch is None: st.assume(z3.And(c>=1,c<=12,*[c!=k for k in TR]))
            src,v=sourceband(E,st,'source',why=='scale',why=='offset'); oth,_=sourceband(E,st,'another'); ds=rds(vm,st,c,dt,{k:(oth if ch is not None and k!=ch else None if why=='source' else src) for k in range(1,13)}); b=obj(vm,st,'band',cls)
            if ch is None:
                for k in range(1,13): vm.write(st,ds,off(RDS,'sources')+8*(k-1),8,Ptr(src,0))
            rt,th=throws(U,vm,vm.call_fn(fn(prog,cls+r'::SingleChannelReflectanceRasterBand\('),[Ptr(b,0),Ptr(ds,0),i],st),'making the band')
            if ch is None or why: U.result('a band without %s is refused'%(why or 'a formula'),bool(th) and not any(vm.feasible_pc(o.st) for o in rt)); continue
            U.result('the band of channel %d is made'%ch,bool(rt) and not any(vm.feasible_pc(o.st) for o in th)); A,m=ops(); e=esd_sym(jd)
            for o in rt:
                s=o.st; checkband(U,vm,s,b,cls,ds,i,6,T,jd,True,4,src); ptr_under(vm,s,vm.read(s,b,off(cls,'source_rb'),8),src,'the source is the band of the channel')
                U.equal(vm,s,vm.read(s,b,off(cls,'rad_slope'),8),v['scale'],'slope of the source',64); U.equal(vm,s,vm.read(s,b,off(cls,'rad_offset'),8),v['offset'],'offset of the source',64)
                U.equal(vm,s,vm.read(s,b,off(cls,'tr'),8),(TR[ch]/(e*e)).v,'irradiance of channel %d at the distance of the sun'%ch,64); made+=1
    U.result('bands can be made',made>=4)
def unit_39_band(U):
    """the band of the 3.9 um reflectance knows its three sources and their calibrations"""
    import z3
    from sym import Ptr
    cls=NS+'Reflectance39RasterBand'; CH={'ir039':4,'ir108':9,'ir134':11}
    for why in [None,('time','')]+[(w,n) for w in('source','scale','offset') for n in CH]:
        prog,vm,st,E,dt,T,jd=bandenv(U,'reflectance.cpp',why!=('time','')); i=z3.BitVec('number',32); S={n:sourceband(E,st,n,why==('scale',n),why==('offset',n)) for n in CH}; oth,_=sourceband(E,st,'another'); t={k:oth for k in range(1,13)}; t.update({CH[n]:None if why==('source',n) else S[n][0] for n in CH}); ds=rds(vm,st,4,dt,t); b=obj(vm,st,'band',cls)
        rt,th=throws(U,vm,vm.call_fn(fn(prog,cls+r'::Reflectance39RasterBand\('),[Ptr(b,0),Ptr(ds,0),i],st),'making the band')
        if why: U.result('a band without %s %s is refused'%why,bool(th) and not any(vm.feasible_pc(o.st) for o in rt)); continue
        U.result('the band is made',bool(rt) and not any(vm.feasible_pc(o.st) for o in th))
        for o in rt:
            s=o.st; checkband(U,vm,s,b,cls,ds,i,6,T,jd,True,4,S['ir039'][0])
            for n in CH:
                ptr_under(vm,s,vm.read(s,b,off(cls,'source_'+n),8),S[n][0],'%s: the source'%n)
                for m,k in(('slope','scale'),('offset','offset')): U.equal(vm,s,vm.read(s,b,off(cls,'%s_%s'%(n,m)),8),S[n][1][k],'%s: %s of the source'%(n,m),64)
def unit_reports(U):
    """what a reflectance band says of its values: percent, scale 1, offset 0, 0 where there is no data"""
    import z3, models
    from sym import State,Ptr,bv,fpz
    cls=NS+'ReflectanceRasterBand'; prog=U.prog([build.emit_ir(D+'reflectance.cpp')]); vm=U.vm(prog)
    for n,v in(('GetOffset',0.0),('GetScale',1.0),('GetNoDataValue',0.0)):
        for given in(0,1):
            st=State(); b=obj(vm,st,'band',cls); p=vm.new(st,'success',4,'heap',A8('success'),const=False)
            for o in U.rets(vm,vm.call_fn(fn(prog,cls+r'::%s\('%n),[Ptr(b,0),Ptr(p,0) if given else Ptr(None,0)],st),what=n):
                U.equal(vm,o.st,o.val,z3.FPVal(v,z3.Float64()),n,64)
                if given: vm.oblige(o.st,bv(vm.read(o.st,p,0,4),32)!=0,n+' is meaningful')
    st=State(); b=obj(vm,st,'band',cls)
    for o in U.rets(vm,vm.call_fn(fn(prog,cls+r'::GetUnitType\('),[Ptr(b,0)],st),what='GetUnitType'): U.result('reflectances are percentages',models.cstr_bytes(vm,o.st,o.val)==b'%')
def unit_init(U):
    """the band made is the one of the channel"""
    import z3
    from sym import State,Ptr,bv
    K={c:('SingleChannelReflectanceRasterBand') for c in TR}; K[4]='Reflectance39RasterBand'
    for ch in list(range(1,13))+[None]:
        prog=U.prog([build.emit_ir(D+'reflectance.cpp')]); vm=U.vm(prog); st=State(); strings(vm,prog); vm.assumptions.add(DOC); c=z3.BitVec('channel',32) if ch is None else ch
        if ch is None: st.assume(z3.Or(c<1,c>12))
        ds=obj(vm,st,'dataset',RDS,channel_id=c); named(vm,prog,{NS+r'SingleChannelReflectanceRasterBand::SingleC':rec('SingleChannelReflectanceRasterBand'),NS+r'Reflectance39RasterBand::Reflectance39R':rec('Reflectance39RasterBand'),r'GDALDataset::SetBand\(':rec('setband')})
        rt,th=throws(U,vm,vm.call_fn(fn(prog,RDS+r'::init_rasterband\('),[Ptr(ds,0)],st),'making the band')
        if ch not in K: U.result('a channel without reflectance is refused',bool(th) and not any(vm.feasible_pc(o.st) for o in rt) and not any('setband' in o.st.ghost for o in th)); continue
        U.result('the band of channel %d is made'%ch,bool(rt) and not any(vm.feasible_pc(o.st) for o in th))
        for o in rt:
            s=o.st; G=s.ghost; m,b=G.get(K[ch],()),G.get('setband',()); U.result('channel %d: one band, of its kind, is made and set'%ch,len(m)==1 and len(b)==1 and not any(G.get(k) for k in K.values() if k!=K[ch]))
            for x,y in zip(m,b):
                ptr_under(vm,s,x[1],ds,'the band is made for the dataset'); vm.oblige(s,bv(x[2],32)==1,'the band made is number 1'); w=one(vm,s,x[0])
                ptr_under(vm,s,y[0],ds,'the band is set on the dataset'); vm.oblige(s,bv(y[1],32)==1,'the band set is number 1'); ptr_under(vm,s,y[2],w.obj,'the band set is the one made',w.off)
def unit_source(bands):
    """sources by the channel number of their bands; `bands`: for each band None (no channel), 'other' (a number that is not a channel) or the channel"""
    def f(U):
        import z3
        from sym import State,Ptr,bv,Outcome
        for own in(0,1):
            prog=U.prog([build.emit_ir(D+'reflectance.cpp')]); vm=U.vm(prog); st=State(); strings(vm,prog); vm.assumptions.add(DOC); E=Ext(vm); dt=vm.new(st,'time',32,'heap',A8('time')); this=rds(vm,st,z3.BitVec('channel',32),dt,{}); old=[vm.new(st,'earlier source %d'%i,64,'heap',A8('old%d'%i)) for i in range(12)]
            for i in range(12): vm.write(st,this,off(RDS,'sources')+8*i,8,Ptr(old[i],0))
            text={}; B=[]
            for k,w in enumerate(bands):
                t=vm.new(st,'channel of band %d'%k,16,'heap',A8('text%d'%k)); n=z3.BitVec('number of band %d'%k,64) if w=='other' else w
                if w=='other': st.assume(z3.And(n>=0,n<1<<31,z3.Or(n<1,n>12)))
                text[t.id]=n
                def item(v,s,a,I,t=t,w=w):
                    q=models.cstr_bytes(v,s,a[1]); d=models.cstr_bytes(v,s,a[2])
                    if (q,d)!=(b'MSAT_CHANNELID',b''): raise Unsupported('item %r of %r'%(q,d))
                    return Ptr(None,0) if w is None else Ptr(t,0)
                B.append(E.new(st,'band %d'%k,'GDALRasterBand',dict(GetMetadataItem=item)))
            import models
            from sym import Unsupported
            ds=vm.new(st,'source',1024,'heap',A8('source'),const=False)
            def num(v,s,a,I):
                q=one(v,s,a[0])
                if q.obj.id not in text or a[2]!=10: raise Unsupported('number of something else')
                return text[q.obj.id] if I.ty.w==64 else z3.Extract(31,0,bv(text[q.obj.id],64))
            for n in('strtoul','strtol','__isoc23_strtoul','__isoc23_strtol','atoi','strtoull','strtoll'): vm.contracts[n]=num
            def get(v,s,a,I):
                from sym import is_c
                ptr_under(v,s,a[0],ds,'bands of the source'); i=a[1]
                if not isinstance(i,int): raise Unsupported('band of unknown number')
                v.oblige(s,z3.BoolVal(1<=i<=len(B)),'bands are those of the source'); return Ptr(B[i-1],0)
            named(vm,prog,{NS+r'ProxyDataset::add_info\(':rec('info'),r'std::set<GDALDataset\*.*>::(insert|emplace)':rec('owned',lambda v,s,a:[Ptr(None,0),1]),r'GDALDataset::GetRasterCount\(':lambda v,s,a,I:len(B),r'GDALDataset::GetRasterBand\(':get})
            want={}
            for k,w in enumerate(bands):
                if isinstance(w,int): want[w]=B[k]
            for o in U.rets(vm,vm.call_fn(fn(prog,RDS+r'::add_source\('),[Ptr(this,0),Ptr(ds,0),own],st),what='add_source'):
                s=o.st; i=s.ghost.get('info',()); w=s.ghost.get('owned',()); U.result('a source with channels is described',bool(i)==bool(want)); U.result('a source is owned when it is given away',bool(w)==bool(want and own))
                for a in i: ptr_under(vm,s,a[0],this,'the dataset is described'); ptr_under(vm,s,a[1],ds,'the description is that of the source')
                for a in w: ptr_under(vm,s,a[0],this,'the set of the dataset',off(RDS,'owned_datasets')); q=one(vm,s,a[1]); ptr_under(vm,s,vm.read(s,q.obj,q.off,8),ds,'the source is the one owned')
                for c in range(1,13): ptr_under(vm,s,vm.read(s,this,off(RDS,'sources')+8*(c-1),8),want.get(c,old[c-1]),'source of channel %d'%c)
    return f
def unit_info(first):
    """description of a dataset: that of its first source; further sources have to agree with it"""
    def f(U):
        import z3, models
        from sym import State,Ptr,bv,Unsupported
        P=NS+'ProxyDataset'; LACK=['','projection','geotransform','time']+(['metadata','set'] if first else ['other projection','other geotransform','other time','other columns','other rows'])
        for lack in LACK:
            prog=U.prog([build.emit_ir(D+'base.cpp')]); vm=U.vm(prog); st=State(); strings(vm,prog); vm.assumptions.add(DOC); vm.abstract_fp=True; E=Ext(vm); g=[z3.BitVec('g%d'%i,64) for i in range(6)]; h=[z3.BitVec('h%d'%i,64) for i in range(6)]; nx,ny,mx,my=(z3.BitVec(n,32) for n in('nx','ny','mx','my'))
            mk=lambda n: vm.new(st,n,512,'heap',A8(n),const=False)
            sp,cp,op,md,tm,ot=mk('projection of the source'),mk('copy of the projection'),mk('earlier projection'),mk('metadata'),mk('time of the source'),mk('earlier time')
            def gt(v,s,a,I):
                if lack=='geotransform': return 3
                q=one(v,s,a[1]); [v.write(s,q.obj,q.off+8*i,8,g[i]) for i in range(6)]; r=z3.BitVec('gtcode',32); s.assume(z3.ULT(r,3)); return r
            def item(v,s,a,I):
                q=models.cstr_bytes(v,s,a[1]),models.cstr_bytes(v,s,a[2])
                if q!=(b'MSAT_DATETIME',b''): raise Unsupported('item %r'%(q,))
                return Ptr(None,0) if lack=='time' else Ptr(tm,0)
            def meta(v,s,a,I):
                if models.cstr_bytes(v,s,a[1])!=b'': raise Unsupported('metadata of another domain')
                return Ptr(None,0) if lack=='metadata' else Ptr(md,0)
            ds=E.new(st,'source','GDALDataset',dict(GetGeoTransform=gt,GetSpatialRef=lambda v,s,a,I: Ptr(None,0) if lack=='projection' else Ptr(sp,0),GetMetadataItem=item,GetMetadata=meta))
            this=obj(vm,st,'dataset',P,has_sources=0 if first else 1); 
            def setmd(v,s,a,I):
                s.ghost['metadata']=s.ghost.get('metadata',())+(tuple(a),); r=z3.BitVec('mdcode',32)
                if lack=='set': return 3
                s.assume(z3.ULT(r,3)); return r
            E.table(st,this,'dataset','GDALDataset',dict(SetMetadata=setmd)); vm.write(st,this,off(P,'osr'),8,Ptr(None,0) if first else Ptr(op,0)); vm.write(st,this,off(P,'datetime'),8,Ptr(ot,0))
            for i in range(6): vm.write(st,this,off(P,'geotransform')+8*i,8,h[i])
            vm.write(st,this,off(P,'nRasterXSize'),4,mx); vm.write(st,this,off(P,'nRasterYSize'),4,my)
            same=z3.And(*[x==y for x,y in zip(g,h)])
            if not first:
                st.assume(z3.Not(same) if lack=='other geotransform' else same); st.assume(nx!=mx if lack=='other columns' else nx==mx); st.assume(ny!=my if lack=='other rows' else ny==my)
            def issame(v,s,a,I):
                p,q=one(v,s,a[0]),one(v,s,a[1])
                if {p.obj,q.obj}!={op,sp}: raise Unsupported('comparison of other projections')
                return 0 if lack=='other projection' else 1
            def compare(eq):
                def f(v,s,a,I):
                    q=one(v,s,a[0]); p=one(v,s,v.read(s,q.obj,q.off,8))
                    if p.obj is not ot or one(v,s,a[1]).obj is not tm: raise Unsupported('comparison of other times')
                    return int((lack!='other time')==eq)
                return f
            cnt=lambda k: (lambda v,s,a,I: (ptr_under(v,s,a[0],ds,'size of the source'),k)[1])
            named(vm,prog,{r'OGRSpatialReference::Clone\(\) const':rec('clone',Ptr(cp,0)),r'OGRSpatialReference::IsSame\(':issame,r'GDALDataset::GetRasterXSize\(':cnt(nx),r'GDALDataset::GetRasterYSize\(':cnt(ny),r'std::__cxx11::basic_string<char.*>::compare\(char const\*\) const':compare(False),r'bool std::operator!=<char':compare(False),r'bool std::operator==<char':compare(True)})
            nm=vm.new(st,'name',32,'heap',A8('name')); was=st.fork()
            rt,th=throws(U,vm,vm.call_fn(fn(prog,P+r'::add_info\('),[Ptr(this,0),Ptr(ds,0),Ptr(nm,0)],st),'add_info')
            if lack:
                U.result('a source %s is refused'%('that does not take the metadata' if lack=='set' else 'of '+lack if lack.startswith('other') else 'without '+lack),bool(th) and not any(vm.feasible_pc(o.st) for o in rt))
                for o in th: vm.oblige(o.st,bv(vm.read(o.st,this,off(P,'has_sources'),1),8)==(0 if first else 1),'a refused source does not count'); ptr_under(vm,o.st,vm.read(o.st,this,off(P,'osr'),8),None if first else op,'a refused source leaves no projection') if not first else None
                continue
            U.result('a source is accepted',bool(rt) and not any(vm.feasible_pc(o.st) for o in th))
            for o in rt:
                s=o.st; vm.oblige(s,bv(vm.read(s,this,off(P,'has_sources'),1),8)==1,'the dataset has a source')
                for i in range(6): U.equal(vm,s,vm.read(s,this,off(P,'geotransform')+8*i,8),g[i],'geotransform coefficient %d is that of the source'%i,64)
                U.equal(vm,s,vm.read(s,this,off(P,'nRasterXSize'),4),nx,'columns of the source',32); U.equal(vm,s,vm.read(s,this,off(P,'nRasterYSize'),4),ny,'rows of the source',32)
                ptr_under(vm,s,vm.read(s,this,off(P,'osr'),8),cp if first else op,'the projection is a copy of that of the first source'); ptr_under(vm,s,vm.read(s,this,off(P,'datetime'),8),tm if first else ot,'the time is that of the first source')
                if first:
                    c=s.ghost.get('clone',()); U.result('one copy of the projection',len(c)==1); [ptr_under(vm,s,a[0],sp,'the projection copied') for a in c]
                    m=s.ghost.get('metadata',()); U.result('the metadata are copied',len(m)==1)
                    for a in m: ptr_under(vm,s,a[0],this,'metadata of the dataset'); ptr_under(vm,s,a[1],md,'metadata of the source'); U.result('domain of the metadata',models.cstr_bytes(vm,s,a[2])==b'')
    return f
def unit_bandinfo(U):
    """description of a band: block size and metadata of its source"""
    import z3, models
    from sym import State,Ptr,bv,Unsupported
    P=NS+'SingleChannelReflectanceRasterBand'
    for lack in('','metadata','set'):
        prog=U.prog([build.emit_ir(D+'base.cpp')]); vm=U.vm(prog); st=State(); strings(vm,prog); vm.assumptions.add(DOC); E=Ext(vm); bx,by=z3.BitVec('bx',32),z3.BitVec('by',32); md=vm.new(st,'metadata',64,'heap',A8('md'))
        def meta(v,s,a,I):
            if models.cstr_bytes(v,s,a[1])!=b'': raise Unsupported('metadata of another domain')
            return Ptr(None,0) if lack=='metadata' else Ptr(md,0)
        def setmd(v,s,a,I):
            s.ghost['metadata']=s.ghost.get('metadata',())+(tuple(a),); r=z3.BitVec('mdcode',32)
            if lack=='set': return 3
            s.assume(z3.ULT(r,3)); return r
        rb=E.new(st,'source','GDALRasterBand',dict(GetMetadata=meta)); this=obj(vm,st,'band',P); E.table(st,this,'band','GDALRasterBand',dict(SetMetadata=setmd)); nm=vm.new(st,'name',32,'heap',A8('name'))
        def size(v,s,a,I): ptr_under(v,s,a[0],rb,'block of the source'); setint(v,s,a[1],bx); setint(v,s,a[2],by)
        named(vm,prog,{r'GDALRasterBand::GetBlockSize\(':size})
        rt,th=throws(U,vm,vm.call_fn(fn(prog,NS+r'ProxyRasterBand::add_info\('),[Ptr(this,0),Ptr(rb,0),Ptr(nm,0)],st),'add_info')
        if lack: U.result('a source whose metadata cannot be copied is refused',bool(th) and not any(vm.feasible_pc(o.st) for o in rt)); continue
        U.result('a source is accepted',bool(rt) and not any(vm.feasible_pc(o.st) for o in th))
        for o in rt:
            s=o.st; U.equal(vm,s,vm.read(s,this,off(P,'nBlockXSize'),4),bx,'columns of a block',32); U.equal(vm,s,vm.read(s,this,off(P,'nBlockYSize'),4),by,'rows of a block',32); m=s.ghost.get('metadata',()); U.result('the metadata are copied',len(m)==1)
            for a in m: ptr_under(vm,s,a[0],this,'metadata of the band'); ptr_under(vm,s,a[1],md,'metadata of the source'); U.result('domain of the metadata',models.cstr_bytes(vm,s,a[2])==b'')
def unit_getters(U):
    """geotransform and projection of a derived dataset"""
    import z3
    from sym import State,Ptr,bv
    P=NS+'ProxyDataset'; prog=U.prog([build.emit_ir(D+'base.cpp')]); vm=U.vm(prog); st=State(); g=[z3.BitVec('g%d'%i,64) for i in range(6)]; sp=vm.new(st,'projection',64,'heap',A8('sp')); this=obj(vm,st,'dataset',P); vm.write(st,this,off(P,'osr'),8,Ptr(sp,0)); b=vm.new(st,'gt',48,'heap',A8('gt'),const=False)
    for i in range(6): vm.write(st,this,off(P,'geotransform')+8*i,8,g[i])
    for o in U.rets(vm,vm.call_fn(fn(prog,P+r'::GetSpatialRef\('),[Ptr(this,0)],st.fork()),what='GetSpatialRef'): ptr_under(vm,o.st,o.val,sp,'the projection is that of the dataset')
    for o in U.rets(vm,vm.call_fn(fn(prog,P+r'::GetGeoTransform\('),[Ptr(this,0),Ptr(b,0)],st.fork()),what='GetGeoTransform'):
        vm.oblige(o.st,bv(o.val,32)==0,'the geotransform is known')
        for i in range(6): U.equal(vm,o.st,vm.read(o.st,b,8*i,8),g[i],'geotransform coefficient %d'%i,64)
SOURCES=[[],[None],['other']]+[[c] for c in range(1,13)]+[[4,9],[9,9],[None,11],['other',1],[2,None],[4,9,11],[11,4,11],[None,12,'other']]
