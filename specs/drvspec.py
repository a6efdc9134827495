"""C18: the GDAL dataset and raster band of the xRIT driver (gdal/xrit/dataset.cpp, gdal/xrit/rasterband.cpp)"""
import re, os, build, layout
from gdalspec import Ext,fn,fpv,ptr_is,slots
RB='gdal/xrit/rasterband.cpp'; DS='gdal/xrit/dataset.cpp'; BAND='msat::xrit::XRITRasterBand'; SET='msat::xrit::XRITDataset'; DA='msat::xrit::DataAccess'
PARTS=['MSG_header','MSG_data','MSG_data_level_15_header','MSG_header_segment_id','MSG_header_image_struct','MSG_header_image_navig']
INC='#include <gdal/xrit/rasterband.h>\n#include <gdal/xrit/dataset.h>\n#include <msat/hrit/MSG_HRIT.h>\nstatic int z=sizeof(%s)+sizeof(%s)+%s;'%(BAND,SET,'+'.join('sizeof(%s)'%p for p in PARTS))
A8=lambda n: __import__('z3').Array(n,__import__('z3').BitVecSort(64),__import__('z3').BitVecSort(8))
_l=[]
def lay():
    if not _l: _l.append(layout.dump(INC))
    return _l[0]
def off(cls,path):
    from sym import Unsupported
    if cls not in lay(): raise Unsupported('no class %s on this tree'%cls)
    for l in lay()[cls][1]:
        if l[6]==path or l[6].endswith('.'+path) and all('::' in c or c.startswith('GDAL') for c in re.split(r'\.',l[6][:-len(path)-1])): return l[1]
    raise Unsupported('%s has no member %s on this tree'%(cls,path))
class FL: k='float'; store=4; w=32
DOC='functions of the GDAL library have their documented meaning'
def dataset(vm,st,hrv,E=None):
    o=vm.new(st,'dataset',lay()[SET][0],'heap',A8('dataset'),const=False)
    vm.write(st,o,off(SET,'da.hrv'),1,int(hrv)); return o
def band(vm,st,xds,**kw):
    from sym import Ptr
    o=vm.new(st,'band',lay()[BAND][0],'heap',A8('band'),const=False); vm.write(st,o,off(BAND,'xds'),8,Ptr(xds,0))
    for n,v in kw.items(): vm.write(st,o,off(BAND,n),dict(linear=1,slope=8,offset=8,calibration=8).get(n,4),v)
    return o
def start(U,hrv,src=RB,also=()):
    from sym import State
    prog=U.prog([build.emit_ir(s) for s in(src,)+tuple(also)]); vm=U.vm(prog); st=State(); E=Ext(vm); xds=dataset(vm,st,hrv)
    E.free(prog,{r'CPLError':lambda v,s,a,I:None}); vm.assumptions.add(DOC); return prog,vm,st,E,xds
def ptr_under(vm,s,p,o,name,at=0):
    import z3
    from sym import Ptr,zbool
    for c,q in vm.resolve(s,p):
        if isinstance(q,Ptr) and q.obj is o and not isinstance(q.off,int): vm.oblige(s,z3.Implies(zbool(c),q.off==at),name)
        elif isinstance(q,Ptr) and q.obj is o and q.off==at: vm.oblige(s,z3.BoolVal(True),name)
        else: vm.oblige(s,z3.Not(zbool(c)),name)
def unit_block(hrv,linear):
    def f(U):
        import z3
        from sym import Ptr,bv,norm,Unsupported,fpz,TRUE
        prog,vm,st,E,xds=start(U,hrv); W=11136 if hrv else 3712; px=2 if linear else 4
        cols=z3.BitVec('columns',64); st.assume(z3.ULE(cols,1<<32)); vm.write(st,xds,off(SET,'da.columns'),8,cols)
        N=z3.BitVec('entries',64); st.assume(z3.And(z3.UGE(N,1),z3.ULE(N,1<<16))); cal=vm.new(st,'calibration',norm(z3.simplify(4*N)),'heap',A8('calibration'))
        S=z3.Array('line',z3.BitVecSort(64),z3.BitVecSort(16))
        def sample(at):
            """sample stored at byte `at` of the line: samples are below the number of entries of the calibration"""
            x=z3.Select(S,bv(at,64)); return x if linear else z3.If(z3.ULT(z3.ZeroExt(48,x),N),x,z3.BitVecVal(0,16))
        def base(c,s,at,n):
            if n!=2: raise Unsupported('part of a sample')
            return sample(at)
        line=vm.new(st,'the line read',norm(z3.simplify(2*cols)),'heap',base)
        if not linear: vm.assumptions.add('samples have as many bits as the header of the scene says (every segment of a scene has the same)')
        b=band(vm,st,xds,nBlockXSize=W,nBlockYSize=1,linear=int(linear),calibration=Ptr(None,0) if linear else Ptr(cal,0),slope=fpv('slope'),offset=fpv('offset'))
        buf=vm.new(st,'block',px*W,'heap',A8('block'),const=False); first=z3.BitVec('start',64); xb,yb=z3.BitVec('xblock',32),z3.BitVec('yblock',32); st.assume(yb>=0)
        def ls(v,s,a,I): s.ghost['lines']=s.ghost.get('lines',())+(a[1],); U.result('the line is asked of the data of the dataset',isinstance(a[0],Ptr) and a[0].obj is xds and a[0].off==off(SET,'da')); return first
        def lr(v,s,a,I):
            s.ghost['lines']=s.ghost.get('lines',())+(a[1],); s.ghost['read']=s.ghost.get('read',0)+1
            U.result('the line is read from the data of the dataset',isinstance(a[0],Ptr) and a[0].obj is xds and a[0].off==off(SET,'da'))
            (c,q),=v.resolve(s,a[2]); n=norm(z3.simplify(2*cols)); v.chk(s,True,q,n,'the line is read into memory that holds it'); v.copy(s,q.obj,q.off,line,0,n); return None
        E.free(prog,{DA+r'::line_start\(':ls,DA+r'::line_read\(':lr})
        fits=z3.And(z3.ULE(first,W),z3.ULE(cols,W),z3.ULE(first+cols,W)); k=z3.BitVec('k',64)
        U.on_model=lambda ev,o:('block',hrv,linear)+tuple(ev(x).as_signed_long() for x in(first,cols,xb,yb))
        vm.assumptions.add('line_start and line_read by contract (proved in C11)')
        case=0
        for fit in(1,0):
          s0=st.fork(); s0.assume(fits if fit else z3.Not(fits))
          for out in U.rets(vm,vm.call_fn(fn(prog,BAND+r'::IReadBlock\('),[Ptr(b,0),xb,yb,Ptr(buf,0)],s0),what='IReadBlock'):
            s=out.st; r=bv(out.val,32)
            if not fit: vm.oblige(s,r==3,'a line that does not fit in the raster is an error'); continue
            vm.oblige(s,(r==0)==(xb==0),'a block of the raster is delivered, any other is an error'); s=s.fork(); s.assume(xb==0)
            if not vm.feasible_pc(s): continue
            for x in s.ghost.get('lines',()): vm.oblige(s,bv(x,64)==z3.SignExt(32,yb),'the line is the one of the block')
            U.result('the line is read once',s.ghost.get('read',0)==1); s.assume(z3.ULT(k,W))
            got=vm.read(s,buf,norm(z3.simplify(px*k)),px); inside=z3.And(z3.UGE(k,first),z3.ULT(k,first+cols)); smp=sample(2*(k-first))
            if linear: U.equal(vm,s,got,z3.If(inside,smp,z3.BitVecVal(0,16)),'a pixel is the sample of its column, or zero outside of the line',16)
            else:
                zero=z3.FPVal(0,z3.Float32()); w=vm.conv(vm.read(s,cal,norm(z3.simplify(4*z3.ZeroExt(48,smp))),4),4,FL)
                w=z3.If(z3.Or(z3.fpLT(w,zero),z3.fpIsNaN(w)),zero,w); i=s.fork(); i.assume(inside); o=s.fork(); o.assume(z3.Not(inside))
                U.equal(vm,i,got,w,'a pixel is the calibrated sample of its column, zero when negative or undefined',32); U.equal(vm,o,got,zero,'a pixel outside of the line is zero',32)
            case+=1
        U.cover(vm,case>0,'a block is delivered') if False else U.result('a block can be delivered',case>0)
    return f
def texts(vm,prog,E):
    """snprintf("%d",v), strftime: the text is known by what it was made from"""
    import models
    from sym import Ptr,Unsupported
    def one(v,s,p):
        r=v.resolve(s,p)
        if len(r)!=1 or not isinstance(r[0][1],Ptr) or r[0][1].obj is None: raise Unsupported('conditional text')
        return r[0][1]
    def settext(s,q,t): d=dict(s.ghost.get('texts',())); d[q.obj.id,q.off]=t; s.ghost['texts']=tuple(d.items())
    def snp(v,s,a,I):
        q=one(v,s,a[0]); fm=models.cstr_bytes(v,s,a[2])
        if fm!=b'%d': raise Unsupported('format %r'%fm)
        v.chk(s,True,q,a[1],'snprintf writes into memory that holds it'); settext(s,q,('%d',a[3],a[1])); return __import__('z3').BitVec('printed',32)
    def sprn(v,s,a,I):
        q=one(v,s,a[0]); fm=models.cstr_bytes(v,s,a[1])
        if fm!=b'%d': raise Unsupported('format %r'%fm)
        v.chk(s,True,q,12,'sprintf writes into memory that holds it'); settext(s,q,('%d',a[2],12)); return __import__('z3').BitVec('printed',32)
    def strf(v,s,a,I):
        q=one(v,s,a[0]); v.chk(s,True,q,a[1],'strftime writes into memory that holds it'); settext(s,q,('time',models.cstr_bytes(v,s,a[2]),a[3],a[1])); return __import__('z3').BitVec('length',64)
    for n,h in(('snprintf',snp),('sprintf',sprn),('strftime',strf)): vm.contracts[n]=h
    def text(v,s,p):
        """what a text is: bytes of a literal, a description, or the object it starts in"""
        q=one(v,s,p); t=dict(s.ghost.get('texts',())).get((q.obj.id,q.off))
        if t is not None: return t
        if q.obj.meta.get('text'): return q.obj.meta['text']
        return models.cstr_bytes(v,s,q)
    vm.assumptions.add('snprintf("%d") and strftime print what they are given')
    return text
def meta(vm,E,st,o,cls,text,result,extra=None):
    """ghost vtable of the object under construction: metadata and description are recorded"""
    def item(v,s,a,I): s.ghost['meta']=s.ghost.get('meta',())+((text(v,s,a[1]),text(v,s,a[2]),text(v,s,a[3])),); return result(s) if callable(result) else result
    def desc(v,s,a,I): s.ghost['desc']=s.ghost.get('desc',())+(text(v,s,a[1]),); return None
    E.table(st,o,o.name,cls,dict(SetMetadataItem=item,SetDescription=desc,**(extra or {})))
def message(vm,st,hrv):
    """header and prologue of a scene: arbitrary contents"""
    from sym import Ptr
    L=lay(); mk=lambda n,c: vm.new(st,n,L[c][0],'heap',A8(n),const=False)
    hdr,seg,ims,nav,pro,msg=mk('header','MSG_header'),mk('segment id','MSG_header_segment_id'),mk('image structure','MSG_header_image_struct'),mk('image navigation','MSG_header_image_navig'),mk('prologue','MSG_data_level_15_header'),mk('prologue file','MSG_data')
    o=lambda c,m: [l[1] for l in L[c][1] if l[3]==m][0]
    for m,x in(('segment_id',seg),('image_structure',ims),('image_navigation',nav)): vm.write(st,hdr,o('MSG_header',m),8,Ptr(x,0))
    vm.write(st,msg,o('MSG_data','prologue'),8,Ptr(pro,0)); return hdr,seg,ims,nav,pro,msg,o
def unit_init(hrv,linear,known=True):
    """the raster band describes itself from the headers of the scene"""
    def f(U):
        import z3
        from sym import Ptr,bv
        prog,vm,st,E,xds=start(U,hrv); text=texts(vm,prog,E); hdr,seg,ims,nav,pro,msg,o=message(vm,st,hrv); sc=z3.BitVec('spacecraft',32); vm.write(st,xds,off(SET,'spacecraft_id'),4,sc)
        b=band(vm,st,xds,calibration=Ptr(None,0)); meta(vm,E,st,b,'GDALRasterBand',text,0); ch=z3.BitVec('channel',8); vm.write(st,seg,o('MSG_header_segment_id','spectral_channel_id'),1,ch); C=z3.ZeroExt(24,ch)
        bits=vm.read(st,ims,o('MSG_header_image_struct','number_of_bits_per_pixel'),1); ok=z3.And(C>=1,C<=12); st.assume(ok if known else z3.Not(ok))
        name=vm.new(st,'channel name',64,'heap',A8('name')); name.meta['text']='channel name'; unit=vm.new(st,'channel unit',64,'heap',A8('unit')); unit.meta['text']='channel unit'; cal=vm.new(st,'calibration',1<<18,'heap',A8('cal'),const=False)
        ev=lambda k: (lambda g: (lambda v,s,a,I: (s.ghost.__setitem__(k,s.ghost.get(k,())+(tuple(a),)),g(v,s,a))[1]))
        def so(v,s,a):
            for p,x,n in((a[2],fpv('slope'),8),(a[3],fpv('offset'),8),(a[4],int(linear),1)):
                (c,q),=v.resolve(s,p); v.write(s,q.obj,q.off,n,x)
        E.free(prog,{r'msat::facts::channelName\(':ev('name')(lambda v,s,a: Ptr(name,0)),r'msat::facts::channelUnit\(':ev('unit')(lambda v,s,a: Ptr(unit,0)),r'MSG_data_RadiometricProc::get_slope_offset\(':ev('slope')(so),r'MSG_data_RadiometricProc::get_calibration\(':ev('cal')(lambda v,s,a: Ptr(cal,0))})
        vm.assumptions.add('calibration and channel facts by contract (proved in C07 and C08)'); n=0
        U.on_model=lambda e,ob:('init',hrv,linear,e(ch).as_long())
        for out in U.rets(vm,vm.call_fn(fn(prog,BAND+r'::init\('),[Ptr(b,0),Ptr(msg,0),Ptr(msg,0),Ptr(hdr,0)],st),what='init'):
            s=out.st; r=bv(out.val,8)&1
            if not known: vm.oblige(s,r==0,'a scene of an unknown channel is refused'); continue
            vm.oblige(s,r==1,'the band of a known channel is set up'); n+=1
            rd=lambda m,k: vm.read(s,b,off(BAND,m),k); one=lambda k,c,w: U.result(w,len(s.ghost.get(k,()))>=1 and all(c(*a) for a in s.ghost[k]))
            vm.oblige(s,bv(rd('nBlockXSize',4),32)==(11136 if hrv else 3712),'a block is as wide as the raster'); vm.oblige(s,bv(rd('nBlockYSize',4),32)==1,'a block is one line'); vm.oblige(s,bv(rd('channel_id',4),32)==C,'the channel is that of the scene')
            vm.oblige(s,bv(rd('eDataType',4),32)==(2 if linear else 6),'counts are 16 bit integers, calibrated pixels are floating point')
            vm.oblige(s,bv(rd('linear',1),8)==int(linear),'the band is calibrated when the scale is not linear')
            U.equal(vm,s,rd('slope',8),fpv('slope') if linear else z3.FPVal(1,z3.Float64()),'scale of the band',64); U.equal(vm,s,rd('offset',8),fpv('offset') if linear else z3.FPVal(0,z3.Float64()),'offset of the band',64)
            for a in s.ghost.get('name',()): vm.oblige(s,z3.And(bv(a[0],32)==sc,bv(a[1],32)==C),'the name is that of the channel of the spacecraft')
            rp=[l[1] for l in lay()['MSG_data_level_15_header'][1] if l[3]=='radiometric_proc'][0]
            for a in s.ghost.get('slope',()): ptr_is(U,a[0],pro,'the scale is that of the prologue',rp); vm.oblige(s,bv(a[1],32)==C,'the scale is that of the channel')
            U.result('the scale is looked up',len(s.ghost.get('slope',()))>=1); c=s.ghost.get('cal',())
            U.result('the calibration is looked up when needed',len(c)==(0 if linear else 1))
            for a in c: ptr_is(U,a[0],pro,'the calibration is that of the prologue',rp); vm.oblige(s,z3.And(bv(a[1],32)==C,bv(a[2],32)==z3.ZeroExt(24,bv(bits,8))),'the calibration is that of the channel, for the bits of a sample')
            ptr_is(U,rd('calibration',8),None if linear else cal,'the calibration of the band')
            d=s.ghost.get('desc',()); U.result('the band is described by the name of the channel',len(d)==1 and d[0]=='channel name')
            M={k:(t,dom) for k,t,dom in s.ghost.get('meta',())}; U.result('channel metadata',set(M)=={b'MSAT_CHANNELID',b'MSAT_CHANNEL'} and M[b'MSAT_CHANNEL']==('channel name',b'') and M[b'MSAT_CHANNELID'][1]==b'' and M[b'MSAT_CHANNELID'][0][0]=='%d')
            if b'MSAT_CHANNELID' in M and M[b'MSAT_CHANNELID'][0][0]=='%d': vm.oblige(s,bv(M[b'MSAT_CHANNELID'][0][1],32)==C,'channel identifier in the metadata')
        if known: U.result('the band is set up',n>0)
    return f
def unit_facts(U):
    """what the band reports, and what is released with it"""
    import z3
    from sym import Ptr,bv
    prog,vm,st,E,xds=start(U,0); sc,ch=z3.BitVec('spacecraft',32),z3.BitVec('channel',32); vm.write(st,xds,off(SET,'spacecraft_id'),4,sc); b=band(vm,st,xds,slope=fpv('slope'),offset=fpv('offset'),channel_id=ch)
    unit=vm.new(st,'channel unit',64,'heap',A8('unit')); asked=[]
    def u(v,s,a,I): asked.append(a); v.oblige(s,z3.And(bv(a[0],32)==sc,bv(a[1],32)==ch),'the unit is that of the channel of the spacecraft'); return Ptr(unit,0)
    E.free(prog,{r'msat::facts::channelUnit\(':u})
    for w,v in(('GetOffset',fpv('offset')),('GetScale',fpv('slope')),('GetNoDataValue',z3.FPVal(0,z3.Float64()))):
        for null in(0,1):
            s0=st.fork(); ok=vm.new(s0,'ok',4,'heap',A8('ok'),const=False)
            for out in U.rets(vm,vm.call_fn(fn(prog,BAND+r'::%s\('%w),[Ptr(b,0),Ptr(None,0) if null else Ptr(ok,0)],s0),what=w):
                U.equal(vm,out.st,out.val,v,w,64)
                if not null: vm.oblige(out.st,bv(vm.read(out.st,ok,0,4),32)==1,w+' is set')
    for out in U.rets(vm,vm.call_fn(fn(prog,BAND+r'::GetUnitType\('),[Ptr(b,0)],st.fork()),what='GetUnitType'): ptr_is(U,out.val,unit,'the unit of the band is that of its channel')
    U.result('the unit is looked up',len(asked)>0)
    prog,vm,st,E,xds=start(U,0,DS); g=[fpv('g%d'%i) for i in range(6)]
    for i,x in enumerate(g): vm.write(st,xds,off(SET,'geotransform')+8*i,8,x)
    o=vm.new(st,'out',48,'heap',A8('out'),const=False)
    for out in U.rets(vm,vm.call_fn(fn(prog,SET+r'::GetGeoTransform\('),[Ptr(xds,0),Ptr(o,0)],st.fork()),what='GetGeoTransform'):
        vm.oblige(out.st,bv(out.val,32)==0,'the geotransform is known')
        for i,x in enumerate(g): U.equal(vm,out.st,vm.read(out.st,o,8*i,8),x,'geotransform coefficient %d'%i,64)
    for out in U.rets(vm,vm.call_fn(fn(prog,SET+r'::GetSpatialRef\(\)'),[Ptr(xds,0)],st.fork()),what='GetSpatialRef'): ptr_is(U,out.val,xds,'the projection is that of the dataset',off(SET,'osr'))
def unit_dataset(hrv,bandok):
    """the dataset of a scene: size, spacecraft, time, projection, geotransform and its band"""
    def f(U):
        import z3
        from sym import Ptr,bv,fpz
        prog,vm,st,E,xds=start(U,hrv,DS,(RB,)); text=texts(vm,prog,E); hdr,seg,ims,nav,pro,msg,o=message(vm,st,hrv); vm.write(st,xds,off(SET,'da.hrv'),1,z3.BitVec('before',8)&1)
        k=[0]
        def res(s): k[0]+=1; r=z3.BitVec('set%d'%k[0],32); s.ghost['codes']=s.ghost.get('codes',())+(r,); return r
        meta(vm,E,st,xds,'GDALDataset',text,res); L=lay(); nb=vm.new(st,'new band',L[BAND][0],'heap',A8('new band'),const=False)
        sname=vm.new(st,'spacecraft name',64,'heap',A8('sname')); sname.meta['text']='spacecraft name'; tm=vm.new(st,'time',64,'heap',A8('tm')); sc=z3.BitVec('spacecraft',32); args={}
        def note(key,g=None):
            def h(v,s,a,I): s.ghost[key]=s.ghost.get(key,())+(tuple(a),); return g(v,s,a) if g else None
            return h
        def scan(v,s,a):
            for p,src,c,m in((a[4],hdr,'MSG_header',('segment_id','image_structure','image_navigation')),(a[2],msg,'MSG_data',('prologue',))):
                (cd,q),=v.resolve(s,p)
                for x in m: v.write(s,q.obj,q.off+o(c,x),8,v.read(s,src,o(c,x),8))
            v.write(s,xds,off(SET,'da.hrv'),1,int(hrv))
        al=[(a,prog.dem.get(b,b)) for mm in prog.mods for a,b in mm.aliases.items()]
        tab={r'MSG_(data|header)::(MSG_(data|header)|~MSG_(data|header))\(\)':lambda v,s,a,I:None,DA+r'::scan\(':note('scan',scan),r'msat::facts::spacecraftIDFromHRIT\(':note('hrit',lambda v,s,a: sc),r'msat::facts::spacecraftName\(':note('scname',lambda v,s,a: Ptr(sname,0)),
             r'MSG_time_cds_(short|expanded)::get_timestruct\(':note('when',lambda v,s,a: Ptr(tm,0)),r'msat::dataset::set_spaceview\(':note('proj'),r'GDALRasterBand::(GDALRasterBand|~GDALRasterBand)\(\)':lambda v,s,a,I:None,BAND+r'::init\(':note('binit',lambda v,s,a: int(bandok)),r'GDALDataset::SetBand\(':note('setband'),r'operator new\(':note('new',lambda v,s,a: Ptr(nb,0)),r'operator delete\(':note('delete'),
             r'std::__cxx11::basic_string<.*>::basic_string(<.*>)?\(char const\*':lambda v,s,a,I: strset(v,s,a),r'std::__cxx11::basic_string<.*>::(c_str|data)\(\) const$':lambda v,s,a,I: strget(v,s,a),r'std::__cxx11::basic_string<.*>::~basic_string\(\)':lambda v,s,a,I:None,r'std::(allocator|__new_allocator)<char>::':lambda v,s,a,I:None}
        def strset(v,s,a):
            (c,q),=v.resolve(s,a[0]); v.write(s,q.obj,q.off,8,a[1])
        def strget(v,s,a):
            (c,q),=v.resolve(s,a[0]); return v.read(s,q.obj,q.off,8)
        for nm,d in list(prog.dem.items())+al:
            d=d.replace('[abi:cxx11]','')
            for rx,h in tab.items():
                if re.match(rx,d): vm.contracts[nm]=h
        vm.assumptions.add('scan (C11), times (C06), facts (C08), std::string and set_spaceview by contract'); n=0
        step=lambda w: vm.conv(vm.read(st,pro,[l[1] for l in L['MSG_data_level_15_header'][1] if l[6].endswith('ReferenceGrid%s.%s'%('HRV' if hrv else 'VIS_IR',w))][0],4),4,FL)
        st.assume(z3.And(*[z3.fpLEQ(z3.fpAbs(step(w)),z3.FPVal(1e6,z3.Float32())) for w in('ColumnDirGridStep','LineDirGridStep')])); vm.assumptions.add('grid steps are finite (magnitude up to 1e6 km)')
        U.on_model=lambda ev,ob:('dataset',hrv)+tuple(ev(z3.fpToIEEEBV(step(w))).as_long() for w in('ColumnDirGridStep','LineDirGridStep'))
        for out in U.rets(vm,vm.call_fn(fn(prog,SET+r'::init\('),[Ptr(xds,0)],st),what='init'):
            s=out.st; r=bv(out.val,8)&1; codes=s.ghost.get('codes',()); good=z3.And(*[c==0 for c in codes]) if codes else z3.BoolVal(True)
            vm.oblige(s,(r==1)==z3.And(good,z3.BoolVal(bool(bandok))),'the dataset is set up unless something fails')
            sb=s.ghost.get('setband',()); G=s.fork(); G.assume(r==1)
            if not vm.feasible_pc(G): U.result('no band is set when the dataset is not set up',not sb); continue
            s=G; n+=1; rd=lambda m,k: vm.read(s,xds,off(SET,m),k); W=11136 if hrv else 3712
            sn=s.ghost.get('scan',()); U.result('the scene is scanned once',len(sn)==1)
            if sn: ptr_is(U,sn[0][0],xds,'the data scanned are those of the dataset',off(SET,'da')); ptr_is(U,sn[0][1],xds,'the files scanned are those of the dataset',off(SET,'fa'))
            vm.oblige(s,bv(rd('nRasterXSize',4),32)==W,'width of the raster'); vm.oblige(s,bv(rd('nRasterYSize',4),32)==W,'height of the raster'); vm.oblige(s,bv(rd('spacecraft_id',4),32)==sc,'spacecraft of the dataset')
            for a in s.ghost.get('hrit',()): vm.oblige(s,bv(a[0],32)==bv(vm.read(st,seg,o('MSG_header_segment_id','spacecraft_id'),4),32),'the spacecraft is that of the header')
            for a in s.ghost.get('scname',()): vm.oblige(s,bv(a[0],32)==sc,'the name is that of the spacecraft')
            M={a:(t,d) for a,t,d in s.ghost.get('meta',())}; U.result('metadata of the dataset',set(M)=={b'MSAT_SPACECRAFTID',b'MSAT_SPACECRAFT',b'MSAT_DATETIME'} and all(d==b'' for t,d in M.values()) and M[b'MSAT_SPACECRAFT'][0]=='spacecraft name')
            t=M.get(b'MSAT_DATETIME',(None,))[0]; U.result('time of the dataset, to the minute',isinstance(t,tuple) and t[0]=='time' and t[1]==b'%Y-%m-%d %H:%M:00' and isinstance(t[2],Ptr) and t[2].obj is tm and isinstance(t[3],int) and t[3]>=20)
            t=M.get(b'MSAT_SPACECRAFTID',(None,))[0]; U.result('spacecraft identifier in the metadata',isinstance(t,tuple) and t[0]=='%d')
            if isinstance(t,tuple) and t[0]=='%d': vm.oblige(s,bv(t[1],32)==sc,'spacecraft identifier in the metadata')
            w=s.ghost.get('when',()); at=[l[1] for l in L['MSG_data_level_15_header'][1] if l[6].endswith('PlannedAquisitionTime.TrueRepeatCycleStart')][0]; U.result('the time is looked up',len(w)==1)
            if w: ptr_is(U,w[0][0],pro,'the time is the start of the repeat cycle',at)
            p=s.ghost.get('proj',()); U.result('the projection is set once',len(p)==1)
            if p:
                ptr_is(U,p[0][0],xds,'the projection set is that of the dataset',off(SET,'osr')); U.equal(vm,s,p[0][1],z3.fpFPToFP(z3.RNE(),vm.conv(vm.read(st,nav,o('MSG_header_image_navig','subsatellite_longitude'),4),4,FL),z3.Float64()),'the projection is centered on the sub-satellite longitude',64)
            px=[z3.fpAbs(z3.fpFPToFP(z3.RNE(),z3.fpMul(z3.RNE(),z3.FPVal(1000,z3.Float32()),step(x)),z3.Float64())) for x in('ColumnDirGridStep','LineDirGridStep')]; F=lambda x: z3.FPVal(x,z3.Float64()); O=5568 if hrv else 1856; m=lambda a,b: z3.fpMul(z3.RNE(),a,b)
            for i,wv in enumerate([m(F(-O),px[0]),px[0],F(0),m(F(O),px[1]),F(0),z3.fpNeg(px[1])]): U.equal(vm,s,vm.read(s,xds,off(SET,'geotransform')+8*i,8),wv,'geotransform: north up, sub-satellite point at pixel %d (coefficient %d)'%(O,i),64)
            bi=s.ghost.get('binit',()); U.result('the band is set up once',len(bi)==1)
            if bi: ptr_is(U,bi[0][0],nb,'the band set up is the new one')
            U.result('the dataset has one band',len(sb)==1)
            if sb: ptr_is(U,sb[0][0],xds,'the band is set on the dataset'); vm.oblige(s,bv(sb[0][1],32)==1,'the band is number 1'); ptr_is(U,sb[0][2],nb,'the band is the one set up')
            U.result('the band is kept',not any(isinstance(a[0],Ptr) and a[0].obj is nb for a in s.ghost.get('delete',()))); ptr_under(vm,s,vm.read(s,nb,off(BAND,'xds'),8),xds,'the band reads from the dataset'); ptr_under(vm,s,vm.read(s,nb,off(BAND,'calibration'),8),None,'a new band has no calibration'); vm.oblige(s,bv(vm.read(s,nb,off(BAND,'nBand'),4),32)==1,'the band knows its number')
        if bandok: U.result('the dataset can be set up',n>0)
    return f
