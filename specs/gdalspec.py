"""GDAL objects by contract (C18..C21): virtual functions of GDAL classes through ghost vtables, and the units over
msat/gdal/dataset.cpp, msat/gdal/points.h, msat/gdal/gdaltranslate.cpp."""
import re, os, build, layout
SRC='msat/gdal/dataset.cpp'; TR='msat/gdal/gdaltranslate.cpp'
INC='#include <msat/gdal/dataset.h>\n#include <msat/gdal/gdaltranslate.h>\n#include <ogr_spatialref.h>\nstatic int z=sizeof(msat::dataset::CalibratedRasterBand)+sizeof(msat::dataset::CalibratedDataset)+sizeof(msat::dataset::GeoReferencer)+sizeof(GDALTranslate)+sizeof(msat::proj::ImageBox)+sizeof(msat::proj::ProjectedBox)+sizeof(msat::proj::MapBox);'
_l=[]
def lay():
    if not _l: _l.append(layout.dump(INC))
    return _l[0]
def off(cls,path):
    from sym import Unsupported
    if cls not in lay(): raise Unsupported('no class %s on this tree'%cls)
    for l in lay()[cls][1]:
        if l[6]==path or l[6].endswith('.'+path) and all('::' in c or c.startswith(('GDAL','VRT')) for c in re.split(r'\.',l[6][:-len(path)-1])): return l[1]
    raise Unsupported('%s has no member %s on this tree'%(cls,path))
def has(cls,path): return any(l[6]==path for l in lay()[cls][1])
def fn(prog,rx):
    from sym import Unsupported
    l=[n for n,f in prog.funcs.items() if not f.decl and re.match(rx,prog.dem.get(n,''))]
    if not l: raise Unsupported('no function %s on this tree'%rx)
    return prog.funcs[l[0]]
# ---------------------------------------------------------------- vtables
DSV=['GetGeoTransform','SetGeoTransform','GetSpatialRef','GetMetadata','SetMetadata','GetMetadataItem','SetMetadataItem','GetDescription','SetDescription','GetGCPCount','GetGCPProjection','GetGCPs','GetDriver','GetFileList','SetProjection','AddBand','FlushCache']
RBV=['GetOffset','GetScale','GetNoDataValue','GetMinimum','GetMaximum','GetUnitType','GetColorInterpretation','GetColorTable','GetCategoryNames','GetMetadata','GetMetadataItem','SetMetadata','SetMetadataItem','GetDescription','SetDescription','IReadBlock','SetNoDataValue','SetColorInterpretation']
SIG={('GDALDataset','SetProjection'):'CPLErr (GDALDataset::*)(const char*)',('GDALDataset','GetSpatialRef'):'const OGRSpatialReference* (GDALDataset::*)() const'}
_v={}
def slots():
    """byte offset in the vtable of each virtual function, from the compiler"""
    if _v: return _v
    t='#include <msat/gdal/clean_gdal_priv.h>\n#include <vrtdataset.h>\n#include <ogr_spatialref.h>\n#include <cstdio>\n#include <cstring>\n#include <type_traits>\n'
    t+='template<class M> void show(const char* c,const char* n,M m){ long w[2]; memcpy(w,&m,16); if(w[0]&1) printf("%s %s %ld\\n",c,n,w[0]-1); }\nint main(){\n'
    for c,l in(('GDALDataset',DSV),('GDALRasterBand',RBV),('VRTDataset',DSV),('VRTSourcedRasterBand',RBV+['AddSimpleSource','CopyCommonInfoFrom'])):
        for n in l:
            if c=='VRTSourcedRasterBand' and n in('AddSimpleSource','CopyCommonInfoFrom'): continue
            if n in('GetDriver','SetProjection') and c!='GDALDataset': pass
            cast=SIG.get((c,n)) or (SIG.get(('GDALDataset',n)) if c=='VRTDataset' else None)
            e='&%s::%s'%(c,n)
            t+='  show("%s","%s",%s);\n'%(c,n,'static_cast<%s>(%s)'%(cast,e) if cast else e)
    t+='}\n'
    wd=build.workdir(); p=os.path.join(wd,'slots.cpp'); open(p,'w').write(t)
    r=build.run(['clang++-18']+build.FLAGS+['-w','-fno-access-control',p,'-o',p+'.x','-lgdal'])
    if r.returncode: raise build.InfraError('vtable probe failed:\n'+r.stderr.decode()[-2000:])
    for l in build.run([p+'.x']).stdout.decode().split('\n'):
        if l: c,n,o=l.split(); _v[c,n]=int(o)
    return _v
class Ext:
    """objects of GDAL classes: only their virtual functions are used; each by contract (class, function) -> fn(vm,st,args,I)"""
    def __init__(s,vm): s.vm=vm
    def new(s,st,name,cls,virt,size=4096):
        import z3
        from sym import Ptr,FnPtr
        vm=s.vm; o=vm.new(st,name,size,'heap',z3.Array(name,z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
        s.table(st,o,name,cls,virt); return o
    def table(s,st,o,name,cls,virt):
        from sym import Ptr,FnPtr,Unsupported
        import z3
        vm=s.vm; vt=vm.new(st,name+'.vtable',8*200,'heap',z3.Array(name+'.vt',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
        by={o_:n for (c,n),o_ in slots().items() if c==cls}
        for k in range(200):
            n=by.get(8*k); f='virtual %s.%s::%s'%(name,cls,n or 'slot %d'%k); vm.write(st,vt,8*k,8,FnPtr(f))
            if n in virt: vm.contracts[f]=virt[n]
            else:
                def no(v,s_,a,I,f=f): raise Unsupported('call to '+f)
                vm.contracts[f]=no
        vm.write(st,o,0,8,Ptr(vt,0))
    def free(s,prog,table):
        """functions of the GDAL library by demangled name (regular expression)"""
        for nm,d in prog.dem.items():
            f=prog.funcs.get(nm)
            if f is not None and not f.decl: continue
            for rx,h in table.items():
                if re.match(rx,d): s.vm.contracts[nm]=h
def fpv(name):
    import z3
    return z3.FP(name,z3.Float64())
def setint(vm,st,p,v):
    """*p = v unless p is null"""
    from sym import Ptr
    for c,q in vm.resolve(st,p):
        if isinstance(q,Ptr) and q.obj is not None: vm.write(st,q.obj,q.off,4,v)
# ---------------------------------------------------------------- C20: calibrated view
def band(U,fails=False,single=None):
    """source band `rb` with arbitrary offset, scale, no-data value, minimum, maximum and block size"""
    import z3
    from sym import State,Ptr
    prog=U.prog([build.emit_ir(SRC)]); vm=U.vm(prog); st=State(); E=Ext(vm); g={}
    g.update({n:fpv(n) for n in('offset','scale','nodata','minimum','maximum')}); g['hasnodata']=z3.Bool('hasnodata'); g['bx'],g['by']=z3.BitVec('bx',32),z3.BitVec('by',32); g['type']=z3.BitVec('type',32)
    one=lambda b: z3.If(b,z3.BitVecVal(1,32),z3.BitVecVal(0,32))
    def val(k,ok):
        def f(v,s,a,I): setint(v,s,a[1],ok() if callable(ok) else ok); return g[k]
        return f
    virt=dict(GetOffset=val('offset',z3.BitVec('okoffset',32)),GetScale=val('scale',z3.BitVec('okscale',32)),GetNoDataValue=val('nodata',one(g['hasnodata'])),GetMinimum=val('minimum',z3.BitVec('okminimum',32)),GetMaximum=val('maximum',z3.BitVec('okmaximum',32)))
    rb=E.new(st,'rb','GDALRasterBand',virt); n32=z3.Concat(z3.BitVecVal(0,1),z3.BitVec('N',31)); vm.products=[(g['bx'],g['by'],n32)]; N=z3.ZeroExt(32,n32); vm.assumptions.add('the number of pixels of a block is representable in an int (it is what the library allocates the block by)'); raw=z3.Array('raw',z3.BitVecSort(64),z3.BitVecSort(8)); from sym import norm; src=vm.new(st,'counts',norm(z3.simplify(2*N)),'heap',raw)
    st.assume(g['bx']>=1); st.assume(g['by']>=1); st.assume(n32>=1 if single is None else n32==1 if single else n32>1);
    def blocksize(v,s,a,I): setint(v,s,a[1],g['bx']); setint(v,s,a[2],g['by']); return None
    def read(v,s,a,I):
        from sym import Outcome,norm
        s.ghost['read']=s.ghost.get('read',())+((a[1],a[2]),)
        if fails: return 3
        (c,q),=v.resolve(s,a[3]); n=norm(z3.simplify(2*N))
        v.chk(s,True,q,n,'the block is read into memory that holds it')
        v.memcpy(s,q,Ptr(src,0),n); r=z3.BitVec('readcode',32)
        s.assume(z3.Or(r==0,r==1,r==2))
        return r
    E.free(prog,{r'GDALRasterBand::GetBlockSize\(':blocksize,r'GDALRasterBand::GetRasterDataType\(':lambda v,s,a,I:g['type'],r'GDALRasterBand::ReadBlock\(':read,r'GDALRasterBand::GDALRasterBand\(\)':lambda v,s,a,I:None})
    vm.assumptions.add('functions of the GDAL library have their documented meaning (offset, scale, no-data, block size and block reading of the source band)')
    return prog,vm,st,E,rb,g,raw,N

CB='msat::dataset::CalibratedRasterBand'
def view(vm,st,g,rb):
    import z3
    from sym import Ptr
    o=vm.new(st,'view',lay()[CB][0],'heap',z3.Array('view',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
    vm.write(st,o,off(CB,'rb'),8,Ptr(rb,0))
    for n,v in(('ofs',g['offset']),('scale',g['scale'])): vm.write(st,o,off(CB,n),8,v)
    for n,v in(('nBlockXSize',g['bx']),('nBlockYSize',g['by'])): vm.write(st,o,off(CB,n),4,v)
    return o
def count(raw,k): 
    import z3
    return z3.Concat(z3.Select(raw,2*k+1),z3.Select(raw,2*k))
def calibrated(g,c):
    import z3
    RNE=z3.RNE(); d=z3.fpUnsignedToFP(RNE,c,z3.Float64()) if hasattr(z3,'fpUnsignedToFP') else z3.fpToFP(RNE,c,z3.Float64())
    return z3.If(z3.And(g['hasnodata'],z3.fpEQ(d,g['nodata'])),z3.FPVal(0,z3.Float32()),z3.fpFPToFP(RNE,z3.fpAdd(RNE,z3.fpMul(RNE,d,g['scale']),g['offset']),z3.Float32()))
def unit_block(fails,single):
  def f(U):
      import z3
      from sym import Ptr,bv
      prog,vm,st,E,rb,g,raw,N=band(U,fails,single); o=view(vm,st,g,rb); from sym import norm
      buf=vm.new(st,'block',norm(z3.simplify(4*N)),'heap',z3.Array('block',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
      k=z3.BitVec('k',64); xb,yb=z3.BitVec('xblock',32),z3.BitVec('yblock',32)
      def f2(ev,ob):
          f=lambda x: ev(z3.fpToIEEEBV(x)).as_long(); return ('block',f(g['offset']),f(g['scale']),bool(z3.is_true(ev(g['hasnodata']))),f(g['nodata']),ev(count(raw,k)).as_long())
      U.on_model=f2
      for out in U.rets(vm,vm.call_fn(fn(prog,CB+r'::IReadBlock\('),[Ptr(o,0),xb,yb,Ptr(buf,0)],st),what='IReadBlock'):
          s=out.st; r=bv(out.val,32); rd=s.ghost.get('read',())
          vm.oblige(s,r==3 if fails else r!=3,'a failure to read the source block is reported' if fails else 'the block is delivered when the source block could be read')
          U.result('the source block is read once',len(rd)==1)
          if rd: vm.oblige(s,z3.And(bv(rd[0][0],32)==xb,bv(rd[0][1],32)==yb),'the block read is the block asked for')
          if fails: continue
          s=s.fork(); s.assume(z3.ULT(k,N))
          from sym import fpz
          got=vm.read(s,buf,norm(z3.simplify(4*k)),4); U.equal(vm,s,got,calibrated(g,count(raw,k)),'a pixel is scale*count+offset, or the missing value','4' and 32)
  return f
def unit_view(what):
    """what the view reports"""
    def f(U):
        import z3
        from sym import Ptr,bv,fpz
        prog,vm,st,E,rb,g,raw,N=band(U); o=view(vm,st,g,rb)
        for null in(0,1):
            s0=st.fork(); ok=vm.new(s0,'ok',4,'heap',z3.Array('ok0',z3.BitVecSort(64),z3.BitVecSort(8)),const=False); RNE=z3.RNE()
            sc=lambda x: z3.fpAdd(RNE,z3.fpMul(RNE,x,g['scale']),g['offset'])
            want={'GetOffset':z3.FPVal(0,z3.Float64()),'GetScale':z3.FPVal(1,z3.Float64()),'GetNoDataValue':z3.FPVal(0,z3.Float64()),'GetMinimum':sc(g['minimum']),'GetMaximum':sc(g['maximum'])}[what]
            for out in U.rets(vm,vm.call_fn(fn(prog,CB+r'::%s\('%what),[Ptr(o,0),Ptr(None,0) if null else Ptr(ok,0)],s0),what=what):
                U.equal(vm,out.st,out.val,want,what+' of the view',64)
                if not null: vm.oblige(out.st,bv(vm.read(out.st,ok,0,4),32)==(1 if what in('GetOffset','GetScale','GetNoDataValue') else z3.BitVec('ok'+what[3:].lower(),32)),what+' says whether the value is set')
    return f
def unit_newview(U):
    import z3
    from sym import Ptr,bv
    prog,vm,st,E,rb,g,raw,N=band(U); o=vm.new(st,'view',lay()[CB][0],'heap',z3.Array('view',z3.BitVecSort(64),z3.BitVecSort(8)),const=False); ds=vm.new(st,'ds',4096,'heap',z3.Array('ds',z3.BitVecSort(64),z3.BitVecSort(8)),const=False); i=z3.BitVec('idx',32)
    for out in U.rets(vm,vm.call_fn(fn(prog,CB+r'::CalibratedRasterBand\('),[Ptr(o,0),Ptr(ds,0),Ptr(rb,0),i],st),what='constructor'):
        s=out.st; rd=lambda m,n: vm.read(s,o,off(CB,m),n)
        U.equal(vm,s,rd('ofs',8),g['offset'],'the offset is that of the source band',64); U.equal(vm,s,rd('scale',8),g['scale'],'the scale is that of the source band',64)
        for m,w,t in(('nBlockXSize',g['bx'],'block width'),('nBlockYSize',g['by'],'block height'),('nBand',i,'band number')): vm.oblige(s,bv(rd(m,4),32)==w,'%s of the view'%t)
        vm.oblige(s,bv(rd('eDataType',4),32)==6,'the view is of floating point values')
        for m,w in(('poDS',ds),('rb',rb)):
            p=rd(m,8); U.result('%s of the view'%m,isinstance(p,Ptr) and p.obj is w and p.off==0)
PB='msat::dataset::ProxyRasterBand'; CD='msat::dataset::CalibratedDataset'
def ptr_is(U,p,o,name,at=0):
    from sym import Ptr
    U.result(name,isinstance(p,Ptr) and p.obj is o and p.off==at)
BANDFN=['GetDescription','GetMetadata','GetMetadataItem','GetCategoryNames','GetNoDataValue','GetMinimum','GetMaximum','GetOffset','GetScale','GetUnitType','GetColorInterpretation','GetColorTable']
def unit_proxyband(U):
    """a band that is not calibrated: every question, and the reading of blocks, is the source band's"""
    import z3
    from sym import State,Ptr,bv
    prog=U.prog([build.emit_ir(SRC)]); vm=U.vm(prog); st=State(); E=Ext(vm); R=z3.Array('any',z3.BitVecSort(64),z3.BitVecSort(8)); res={}
    def virt(n):
        def f(v,s,a,I): s.ghost['call']=s.ghost.get('call',())+((n,tuple(a[1:])),); return res[n]
        return f
    for n in BANDFN: res[n]=fpv(n) if n in('GetNoDataValue','GetMinimum','GetMaximum','GetOffset','GetScale') else z3.BitVec(n,32) if n=='GetColorInterpretation' else Ptr(vm.new(st,'result of '+n,16,'heap',R),0)
    rb=E.new(st,'rb','GDALRasterBand',{n:virt(n) for n in BANDFN}); code=z3.BitVec('code',32)
    def read(v,s,a,I): s.ghost['call']=s.ghost.get('call',())+(('ReadBlock',tuple(a[1:])),); return code
    E.free(prog,{r'GDALRasterBand::ReadBlock\(':read})
    o=vm.new(st,'band',lay()[PB][0],'heap',R,const=False); vm.write(st,o,off(PB,'rb'),8,Ptr(rb,0))
    A=[Ptr(vm.new(st,'argument %d'%k,16,'heap',R,const=False),0) for k in(0,1)]; x,y=z3.BitVec('xblock',32),z3.BitVec('yblock',32)
    for n in BANDFN+['IReadBlock']:
        F=fn(prog,PB+r'::%s\('%n); F.blocks; a=[x,y,A[0]] if n=='IReadBlock' else A[:len(F.params)-1]
        for out in U.rets(vm,vm.call_fn(F,[Ptr(o,0)]+a,st.fork()),what=n):
            c=out.st.ghost.get('call',()); U.result('%s asks the source band once, for the same thing'%n,len(c)==1 and c[0][0]==(n if n!='IReadBlock' else 'ReadBlock') and len(c[0][1])==len(a))
            if not(len(c)==1 and len(c[0][1])==len(a)): continue
            for g,w in zip(c[0][1],a):
                if isinstance(w,Ptr): ptr_is(U,g,w.obj,'%s passes its arguments on'%n)
                else: vm.oblige(out.st,bv(g,32)==w,'%s passes its arguments on'%n)
            w=code if n=='IReadBlock' else res[n]
            if isinstance(w,Ptr): ptr_is(U,out.val,w.obj,'%s answers what the source band answers'%n)
            else: U.equal(vm,out.st,out.val,w,'%s answers what the source band answers'%n,64 if n in res and n!='GetColorInterpretation' else 32)
    vm.assumptions.add('functions of the GDAL library have their documented meaning (offset, scale, no-data, block size and block reading of the source band)')
def unit_dataset(U):
    """the view has a band for each source band, in order: calibrated when the source holds 16 bit counts"""
    import z3
    from sym import State,Ptr,FnPtr,bv,norm
    prog=U.prog([build.emit_ir(SRC)]); vm=U.vm(prog); st=State(); E=Ext(vm); A8=lambda n: z3.Array(n,z3.BitVecSort(64),z3.BitVecSort(8))
    ds=E.new(st,'ds','GDALDataset',{}); n=z3.BitVec('bands',32); st.assume(n>=0); st.assume(n<=65535); w,h=z3.BitVec('width',32),z3.BitVec('height',32)
    N=z3.ZeroExt(32,n); src=vm.new(st,'source bands',norm(z3.simplify(8*N+8)),'heap',A8('source bands')); types=z3.Array('types',z3.BitVecSort(64),z3.BitVecSort(8)) # type of band i: byte i (codes of GDALDataType)
    tabs=[vm.new(st,'%s of the bands of the view'%x,norm(z3.simplify(8*N+8)),'heap',A8(x),const=False) for x in('kind','number','source')]; fresh=vm.new(st,'new band',512,'heap',A8('fresh'),const=False)
    def index(p):
        from sym import Unsupported
        if not(isinstance(p,Ptr) and p.obj is src): raise Unsupported('a band that is not a source band')
        return z3.UDiv(bv(p.off,64),z3.BitVecVal(8,64)) if not isinstance(p.off,int) else z3.BitVecVal(p.off//8,64)
    def get(v,s,a,I):
        i=bv(a[1],32); v.oblige(s,z3.And(i>=1,i<=n),'only the bands there are are asked for'); return Ptr(src,norm(z3.simplify(8*z3.SignExt(32,i))))
    def typ(v,s,a,I): return z3.ZeroExt(24,z3.Select(types,index(a[0])))
    def new(v,s,a,I): return Ptr(fresh,0)
    def ctor(kind):
        def f(v,s,a,I):
            p=a[0]; U.result('a new band is constructed',isinstance(p,Ptr) and p.obj is fresh and p.off==0); ok=isinstance(a[1],Ptr) and a[1].obj is view and a[1].off==0; U.result('the bands belong to the view',ok)
            v.write(s,fresh,0,4,kind); v.write(s,fresh,8,4,a[3]); v.write(s,fresh,16,8,z3.simplify(index(a[2]))); return None
        return f
    def setband(v,s,a,I):
        U.result('the bands are set on the view',isinstance(a[0],Ptr) and a[0].obj is view); i=bv(a[1],32); v.oblige(s,z3.And(i>=1,i<=n),'a band is set for each source band'); j=norm(z3.simplify(8*z3.SignExt(32,i)))
        for tb,o_,m in zip(tabs,(0,8,16),(4,4,8)): v.write(s,tb,j,m,v.read(s,fresh,o_,m))
        return None
    view=vm.new(st,'view',lay()[CD][0],'heap',A8('view'),const=False)
    E.free(prog,{r'GDALDataset::GDALDataset\(\)':lambda v,s,a,I:None,r'GDALDataset::GetRasterXSize\(':lambda v,s,a,I:w,r'GDALDataset::GetRasterYSize\(':lambda v,s,a,I:h,r'GDALDataset::GetRasterCount\(':lambda v,s,a,I:n,r'GDALDataset::GetRasterBand\(':get,r'GDALRasterBand::GetRasterDataType\(':typ,r'GDALDataset::SetBand\(':setband})
    al=[(a,prog.dem.get(b,b)) for m in prog.mods for a,b in m.aliases.items()]
    for nm,d in list(prog.dem.items())+al:
        if d.startswith('operator new('): vm.contracts[nm]=new
        if re.match(CB+r'::CalibratedRasterBand\(',d): vm.contracts[nm]=ctor(1)
        if re.match(PB+r'::ProxyRasterBand\(',d): vm.contracts[nm]=ctor(2)
    for out in U.rets(vm,vm.call_fn(fn(prog,CD+r'::CalibratedDataset\('),[Ptr(view,0),Ptr(ds,0)],st),what='constructor'):
        s=out.st; rd=lambda m,k: vm.read(s,view,off(CD,m),k)
        vm.oblige(s,bv(rd('nRasterXSize',4),32)==w,'width of the view'); vm.oblige(s,bv(rd('nRasterYSize',4),32)==h,'height of the view'); ptr_is(U,rd('ds',8),ds,'the view is of the source')
        s=s.fork(); k=z3.BitVec('k',64); s.assume(z3.And(z3.UGE(k,1),z3.ULE(k,N))); f=lambda j,m: vm.read(s,tabs[j],norm(z3.simplify(8*k)),m)
        is16=z3.Select(types,k)==2
        U.equal(vm,s,f(0,4),z3.If(is16,z3.BitVecVal(1,32),z3.BitVecVal(2,32)),'bands of 16 bit counts are calibrated, the others are as in the source',32)
        U.equal(vm,s,f(1,4),z3.Extract(31,0,k),'a band of the view has the number of its source band',32); U.equal(vm,s,f(2,8),k,'a band of the view shows the source band of the same number',64)
    vm.assumptions.add('functions of the GDAL library have their documented meaning (number, type and identity of the bands of a dataset); at most 65535 bands (limit of the library)')
