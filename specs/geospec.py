"""C21: geotransforms, coordinate conversions, boxes and the cropped view (msat/gdal/dataset.cpp, points.h, gdaltranslate.cpp)"""
import re, os, build, layout
from gdalspec import *
GR='msat::dataset::GeoReferencer'; A8=lambda n: __import__('z3').Array(n,__import__('z3').BitVecSort(64),__import__('z3').BitVecSort(8))
def gt(pre='g'): return [fpv('%s%d'%(pre,i)) for i in range(6)]
def put(vm,st,o,at,vals,n=8):
    for i,v in enumerate(vals): vm.write(st,o,at+n*i,n,v)
def finite(vals,lim=1e100):
    import z3
    return [z3.fpLEQ(z3.fpAbs(v),z3.FPVal(lim,z3.Float64())) for v in vals]
def det(g):
    import z3
    R=z3.RNE(); return z3.fpSub(R,z3.fpMul(R,g[1],g[5]),z3.fpMul(R,g[2],g[4]))
def inverse(g):
    import z3
    R=z3.RNE(); m=lambda a,b: z3.fpMul(R,a,b); s=lambda a,b: z3.fpSub(R,a,b); r=z3.fpDiv(R,z3.FPVal(1,z3.Float64()),det(g)); n=z3.fpNeg
    return [m(s(m(g[2],g[3]),m(g[0],g[5])),r),m(g[5],r),m(n(g[2]),r),m(z3.fpAdd(R,m(n(g[1]),g[3]),m(g[0],g[4])),r),m(n(g[4]),r),m(g[1],r)]
def affine(g,k,x,y):
    import z3
    R=z3.RNE(); return z3.fpAdd(R,z3.fpAdd(R,g[k],z3.fpMul(R,g[k+1],x)),z3.fpMul(R,g[k+2],y))
def small(d):
    import z3
    return z3.fpLT(z3.fpAbs(d),z3.FPVal(1e-15,z3.Float64()))
def setup(U,vals=(),extra=()):
    from sym import State
    prog=U.prog([build.emit_ir(SRC)]+list(extra)); vm=U.vm(prog); st=State(); E=Ext(vm)
    for c in finite(vals): st.assume(c)
    def err(v,s,a,I): s.ghost['errors']=s.ghost.get('errors',0)+1; return None
    E.free(prog,{r'CPLError':err})
    vm.assumptions.add('geotransforms are finite (magnitudes up to 1e100); comparisons of formulas over floating point are made up to rounding')
    return prog,vm,st,E
def model(kind,*terms):
    def f(ev,ob):
        import z3
        v=lambda x: ev(z3.fpToIEEEBV(x)).as_long() if z3.is_fp(x) else ev(x).as_signed_long()
        return (kind,)+tuple([v(y) for y in x] if isinstance(x,(list,tuple)) else v(x) for x in terms)
    return f
def unit_invert(U):
    import z3
    from sym import Ptr,bv
    g=gt(); prog,vm,st,E=setup(U,g); U.on_model=model('gt',g)
    for sing in(0,1):
        s0=st.fork(); s0.assume(small(det(g)) if sing else z3.Not(small(det(g)))); i=vm.new(s0,'normal',48,'heap',A8('in'),const=False); o=vm.new(s0,'inverted',48,'heap',A8('out'),const=False); put(vm,s0,i,0,g)
        for out in U.rets(vm,vm.call_fn(fn(prog,r'msat::dataset::invertGeoTransform\('),[Ptr(i,0),Ptr(o,0)],s0),what='invertGeoTransform'):
            s=out.st; vm.oblige(s,bv(out.val,32)==(3 if sing else 0),'a singular geotransform is reported' if sing else 'an invertible geotransform is inverted')
            if not sing:
                for k,w in enumerate(inverse(g)): U.equal(vm,s,vm.read(s,o,8*k,8),w,'coefficient %d of the inverse'%k,64)
            for k in range(6): U.equal(vm,s,vm.read(s,i,8*k,8),g[k],'the geotransform itself is left alone',64)
def unit_lemma(U):
    """over the reals, the coefficients of `inverse` undo the geotransform, and inverting twice gives the geotransform back"""
    import z3
    g=[z3.Real('g%d'%i) for i in range(6)]; x,y,r=z3.Real('x'),z3.Real('y'),z3.Real('r'); d=g[1]*g[5]-g[2]*g[4]
    inv=lambda g,r: [(g[2]*g[3]-g[0]*g[5])*r,g[5]*r,-g[2]*r,(-g[1]*g[3]+g[0]*g[4])*r,-g[4]*r,g[1]*r]
    i=inv(g,r); px,py=g[0]+g[1]*x+g[2]*y,g[3]+g[4]*x+g[5]*y
    def zero(name,e,by):
        """e is by*(r*det-1): a polynomial identity, so e is 0 when r is 1/det"""
        S=z3.Solver(); S.set('timeout',20000); S.add(z3.simplify(e-by*(r*d-1),som=True)!=0); q=S.check(); U.result(name,q==z3.unsat,kind='lemma',solver='z3 (polynomial identity)')
    zero('column: inverse after forward is the identity',i[0]+px*i[1]+py*i[2]-x,x); zero('line: inverse after forward is the identity',i[3]+px*i[4]+py*i[5]-y,y)
    X,Y=i[0]+i[1]*x+i[2]*y,i[3]+i[4]*x+i[5]*y
    zero('x: forward after inverse is the identity',g[0]+g[1]*X+g[2]*Y-x,x-g[0]); zero('y: forward after inverse is the identity',g[3]+g[4]*X+g[5]*Y-y,y-g[3])
    zero('the determinant of the inverse is 1/det',(i[1]*i[5]-i[2]*i[4])-r,r)
    j=inv(i,d)
    for k in range(6):
        # with r*det=1: r^2*det = r; every coefficient of the double inverse is g_k*(r*det)^m
        S=z3.Solver(); S.set('timeout',20000); S.add(r*d==1,j[k]!=g[k]); q=S.check()
        if q!=z3.unsat:
            e=z3.simplify(j[k]-g[k],som=True)
            for c in(g[k],g[k]*(1+r*d)):
                S=z3.Solver(); S.set('timeout',20000); S.add(z3.simplify(e-c*(r*d-1),som=True)!=0)
                if S.check()==z3.unsat: q=z3.unsat
        U.result('inverting twice gives coefficient %d back'%k,q==z3.unsat,kind='lemma',solver='z3')
def lrints(vm,prog,E,st):
    """lrint(x): some integer, recorded with x (rounding itself is libm's)"""
    import z3
    def f(v,s,a,I):
        l=s.ghost.get('lrint',()); r=z3.BitVec('lrint%d'%len(l),64); s.ghost['lrint']=l+((a[0],r),); return r
    for nm,d in prog.dem.items():
        if d in('lrint','lrintl') or re.match(r'(std::)?lrint\(|llvm\.lrint',d): vm.contracts[nm]=f
    vm.assumptions.add('lrint rounds to the nearest integer')
def referencer(vm,st,g,i):
    o=vm.new(st,'referencer',lay()[GR][0],'heap',A8('referencer'),const=False); put(vm,st,o,off(GR,'geoTransform'),g); put(vm,st,o,off(GR,'invGeoTransform'),i); return o
def rounded(U,vm,s,got,want,name):
    """got (32 bits) is lrint(want)"""
    import z3
    from sym import bv
    l=s.ghost.get('lrint',()); hit=[a for a,r in l if z3.simplify(bv(got,32)).eq(z3.simplify(z3.Extract(31,0,r)))]
    U.result(name+' is rounded to the nearest',len(hit)==1)
    if hit: U.equal(vm,s,hit[0],want,name,64)
def unit_points(U):
    import z3
    from sym import Ptr,bv
    g,i=gt(),gt('i'); px,py=fpv('px'),fpv('py'); prog,vm,st,E=setup(U,g+i+[px,py]); lrints(vm,prog,E,st); o=referencer(vm,st,g,i); x,y=z3.BitVec('x',32),z3.BitVec('y',32); U.on_model=model('point',g,x,y)
    out2=vm.new(st,'result',16,'heap',A8('result'),const=False); f=lambda v: z3.fpSignedToFP(z3.RNE(),v,z3.Float64())
    for out in U.rets(vm,vm.call_fn(fn(prog,GR+r'::pixelToProjected\('),[Ptr(o,0),x,y,Ptr(out2,0),Ptr(out2,8)],st.fork()),what='pixelToProjected'):
        for k,n in((0,'x'),(1,'y')): U.equal(vm,out.st,vm.read(out.st,out2,8*k,8),affine(g,3*k,f(x),f(y)),'projected %s of a pixel'%n,64)
    for out in U.rets(vm,vm.call_fn(fn(prog,GR+r'::projectedToPixel\('),[Ptr(o,0),px,py,Ptr(out2,0),Ptr(out2,8)],st.fork()),what='projectedToPixel'):
        for k,n in((0,'column'),(1,'line')): rounded(U,vm,out.st,vm.read(out.st,out2,8*k,4),affine(i,3*k,px,py),'%s of a projected point'%n)
def ghostds(E,vm,st,g,fails=False,srs=None):
    from sym import Ptr
    def get(v,s,a,I):
        if fails: return 3
        (c,q),=v.resolve(s,a[1]); put(v,s,q.obj,q.off,g); return 0
    return E.new(st,'ds','GDALDataset',dict(GetGeoTransform=get,GetSpatialRef=lambda v,s,a,I: srs if srs is not None else Ptr(None,0)))
def unit_decode(U):
    import z3
    from sym import Ptr,bv
    g=gt(); prog,vm,st,E=setup(U,g); lrints(vm,prog,E,st); ds=ghostds(E,vm,st,g); o=vm.new(st,'result',32,'heap',A8('result'),const=False); U.on_model=model('gt',g); R=z3.RNE(); n=z3.fpNeg
    for out in U.rets(vm,vm.call_fn(fn(prog,r'msat::dataset::decodeGeotransform\('),[Ptr(ds,0),Ptr(o,0),Ptr(o,8),Ptr(o,16),Ptr(o,24)],st),what='decodeGeotransform'):
        s=out.st; U.equal(vm,s,vm.read(s,o,16,8),g[1],'pixel width',64); U.equal(vm,s,vm.read(s,o,24,8),n(g[5]),'pixel height',64)
        rounded(U,vm,s,vm.read(s,o,0,4),z3.fpDiv(R,n(g[0]),g[1]),'column offset'); rounded(U,vm,s,vm.read(s,o,8,4),z3.fpDiv(R,g[3],n(g[5])),'line offset')
def destructors(vm,st):
    """a vtable whose functions do nothing to the state (the objects are only destroyed through it)"""
    from sym import FnPtr
    vt=vm.new(st,'vtable of destructors',8*16,'heap',A8('vtd'),const=False)
    for k in range(16): vm.write(st,vt,8*k,8,FnPtr('virtual destructor'))
    vm.contracts['virtual destructor']=lambda v,s,a,I: None
    return vt
def unit_init(case):
    """case: '' | 'no geotransform' | 'singular' | 'no projection'"""
    def f(U):
        import z3
        from sym import Ptr,bv
        g=gt(); prog,vm,st,E=setup(U,g); srs=vm.new(st,'srs',64,'heap',A8('srs'),const=False)
        ds=ghostds(E,vm,st,g,case=='no geotransform',Ptr(None,0) if case=='no projection' else Ptr(srs,0)); d=det(g); st.assume(small(d) if case=='singular' else z3.Not(small(d)))
        o=vm.new(st,'referencer',lay()[GR][0],'heap',A8('referencer'),const=False)
        for m in('proj','latlon','toLatLon','fromLatLon'): vm.write(st,o,off(GR,m),8,0)
        vt=destructors(vm,st)
        def new(n):
            def f(v,s,a,I): o=v.new(s,n,64,'heap',A8(n),const=False); v.write(s,o,0,8,Ptr(vt,0)); return Ptr(o,0)
            return f
        def inv(v,s,a,I):
            # contract of invertGeoTransform (its unit proves it)
            (c,p),=v.resolve(s,a[0]); (c,q),=v.resolve(s,a[1])
            for k in range(6): U.equal(v,s,v.read(s,p.obj,p.off+8*k,8),g[k],'the geotransform of the image is the one inverted',64)
            if case!='singular': put(v,s,q.obj,q.off,[fpv('inv%d'%k) for k in range(6)]); return 0
            return 3
        nop=lambda v,s,a,I: None
        def ct(v,s,a,I):
            s.ghost['ct']=s.ghost.get('ct',())+((a[0],a[1]),); return Ptr(v.new(s,'transformation %d'%len(s.ghost['ct']),64,'heap',A8('ct'),const=False),0)
        E.free(prog,{r'OGRSpatialReference::Clone\(':new('copy of the projection'),r'OGRSpatialReference::CloneGeogCS\(':new('geographic system'),r'OGRSpatialReference::SetAxisMappingStrategy\(':lambda v,s,a,I: s.ghost.__setitem__('axis',s.ghost.get('axis',())+((a[0].obj.name,a[1]),)),r'OGRCreateCoordinateTransformation':ct})
        for nm,dm in prog.dem.items():
            if re.match(r'msat::dataset::invertGeoTransform\(',dm): vm.contracts[nm]=inv
        for out in U.rets(vm,vm.call_fn(fn(prog,GR+r'::init\('),[Ptr(o,0),Ptr(ds,0)],st),what='init'):
            s=out.st; vm.oblige(s,bv(out.val,32)==(3 if case else 0),'%s is reported'%case if case else 'the image can be georeferenced')
            if case: continue
            for k in range(6):
                U.equal(vm,s,vm.read(s,o,off(GR,'geoTransform')+8*k,8),g[k],'the geotransform is that of the image',64); U.equal(vm,s,vm.read(s,o,off(GR,'invGeoTransform')+8*k,8),fpv('inv%d'%k),'the inverse is that of the geotransform',64)
            c=s.ghost.get('ct',()); nm=lambda p: p.obj.name if isinstance(p,Ptr) and p.obj is not None else '-'; by={(nm(a),nm(b)):'transformation %d'%(k+1) for k,(a,b) in enumerate(c)}
            P,L='copy of the projection','geographic system'
            for m,w in(('toLatLon',(P,L)),('fromLatLon',(L,P))): U.result('%s converts from the %s'%(m,w[0]),w in by and nm(vm.read(s,o,off(GR,m),8))==by[w])
            U.result('longitudes come before latitudes',set(s.ghost.get('axis',()))=={(P,0),(L,0)})
    return f
def unit_latlon(U):
    import z3
    from sym import Ptr,bv
    prog,vm,st,E=setup(U); o=vm.new(st,'referencer',lay()[GR][0],'heap',A8('referencer'),const=False); r=vm.new(st,'result',16,'heap',A8('result'),const=False)
    a,b=fpv('a'),fpv('b'); okf=z3.BitVec('ok',32)
    ts={m:vm.new(st,m,64,'heap',A8(m),const=False) for m in('toLatLon','fromLatLon')}
    for m,t in ts.items(): vm.write(st,o,off(GR,m),8,Ptr(t,0))
    def transform(v,s,args,I):
        (c,p),=v.resolve(s,args[2]); (c,q),=v.resolve(s,args[3]); s.ghost['tr']=(args[0].obj.name,args[1],v.read(s,p.obj,p.off,8),v.read(s,q.obj,q.off,8))
        v.write(s,p.obj,p.off,8,fpv('X')); v.write(s,q.obj,q.off,8,fpv('Y')); return okf
    E.free(prog,{r'OGRCoordinateTransformation::Transform\(':transform})
    for F,m,first,second in(('projectedToLatlon','toLatLon',0,1),('latlonToProjected','fromLatLon',1,0)):
        for out in U.rets(vm,vm.call_fn(fn(prog,GR+r'::%s\('%F),[Ptr(o,0),a,b,Ptr(r,0),Ptr(r,8)],st.fork()),what=F):
            s=out.st; t=s.ghost.get('tr'); U.result('%s: the point is transformed'%F,t is not None and t[0]==m)
            if not t: continue
            ab=(a,b); U.equal(vm,s,t[2],ab[first],F+': horizontal coordinate of the point',64); U.equal(vm,s,t[3],ab[second],F+': vertical coordinate of the point',64); vm.oblige(s,bv(t[1],32)==1,F+': one point')
            vm.oblige(s,(bv(out.val,32)==0)==(okf!=0),F+': failures are reported')
            s=s.fork(); s.assume(okf!=0); 
            if not vm.feasible_pc(s): continue
            # results: lat first for projectedToLatlon, x first for latlonToProjected
            U.equal(vm,s,vm.read(s,r,0 if F=='latlonToProjected' else 8,8),fpv('X'),F+': horizontal result',64); U.equal(vm,s,vm.read(s,r,8 if F=='latlonToProjected' else 0,8),fpv('Y'),F+': vertical result',64)
BOX={'ImageBox':('column','line'),'ProjectedBox':('x','y'),'MapBox':('lat','lon')}
def unit_box(cls):
    def f(U):
        import z3
        from sym import Ptr,bv,State
        prog=U.prog([build.emit_ir(os.path.join(build.VERIF,'harness','geo_inst.cpp'))]); vm=U.vm(prog); st=State(); C='msat::proj::'+cls; a,b=BOX[cls]; im=cls=='ImageBox'
        o=vm.new(st,'box',lay()[C][0],'heap',A8('box'),const=False); n=4 if im else 8; r=[vm.new(st,'result %d'%k,n,'heap',A8('result %d'%k),const=False) for k in range(4)]
        v={}
        for p in('topLeft','bottomRight'):
            for c in(a,b):
                x=z3.BitVec('%s.%s'%(p,c),64) if im else fpv('%s.%s'%(p,c)); v[p,c]=x; vm.write(st,o,off(C,p+'.'+c),8,x)
                if im: st.assume(z3.And(x>=-(1<<30),x<=1<<30)); vm.assumptions.add('image coordinates are within +-2^30 (differences representable in an int)')
                else: st.assume(finite([x])[0])
        t,q=v['topLeft',a],v['bottomRight',a]; t2,q2=v['topLeft',b],v['bottomRight',b]; U.on_model=model('box:'+cls,t,t2,q,q2)
        le=(lambda x,y: x<=y) if im else z3.fpLEQ; mn=lambda x,y: z3.If(le(x,y),x,y); mx=lambda x,y: z3.If(le(x,y),y,x)
        sub=(lambda x,y: x-y) if im else (lambda x,y: z3.fpSub(z3.RNE(),x,y))
        for out in U.rets(vm,vm.call_fn(fn(prog,C+r'::boundingBox\('),[Ptr(o,0)]+[Ptr(x,0) for x in r],st.fork()),what='boundingBox'):
            s=out.st; g=[vm.read(s,x,0,n) for x in r]
            if cls=='MapBox': want=[mn(t,q),mx(t,q),mn(t2,q2),mx(t2,q2)]; names=['latmin','latmax','lonmin','lonmax']
            else: want=[mn(t,q),mn(t2,q2),sub(mx(t,q),mn(t,q)),sub(mx(t2,q2),mn(t2,q2))]; names=['x0','y0','width','height']
            for x,w,nm in zip(g,want,names):
                if im: vm.oblige(s,bv(x,32)==z3.Extract(31,0,w),'bounding box: '+nm)
                else:
                    from sym import fpz
                    vm.oblige(s,z3.fpEQ(fpz(x,8),w),'bounding box: '+nm)
        nz=[x!=0 if im else z3.Not(z3.fpIsZero(x)) for x in v.values()]
        for out in U.rets(vm,vm.call_fn(fn(prog,C+r'::isNonZero\('),[Ptr(o,0)],st.fork()),what='isNonZero'):
            r_=out.val; r_=r_ if isinstance(r_,(bool,z3.BoolRef)) else bv(r_,1)==1
            vm.oblige(out.st,r_==z3.Or(*nz),'a box is zero when all its coordinates are')
    return f
# ---------------------------------------------------------------- cropped / resampled view
T='GDALTranslate'
TABS=[('type',4),('source',8),('x0',8),('y0',8),('w',8),('h',8),('dx0',8),('dy0',8),('dw',8),('dh',8),('info',8)]
def f64(x):
    import z3
    return z3.fpSignedToFP(z3.RNE(),x,z3.Float64())
def translate_setup(U,resample,georef=True):
    import z3
    from sym import State,Ptr,bv,norm
    g=gt(); prog=U.prog([build.emit_ir(TR)]); vm=U.vm(prog); st=State(); E=Ext(vm); X,Y=z3.BitVec('X',32),z3.BitVec('Y',32); n=z3.BitVec('bands',32); N=z3.ZeroExt(32,n)
    for c in finite(g): st.assume(c)
    st.assume(z3.And(X>=1,Y>=1,n>=1,n<=65535))
    o=vm.new(st,'translate',lay()[T][0],'heap',A8('translate'),const=False); W=[z3.BitVec('win%d'%k,32) for k in range(4)]
    for m,k in(('eOutputType',4),('nBandCount',4),('bStrict',4),('nGCPCount',4),('bSetNoData',4),('bGotBounds',4),('bScale',4),('bHaveScaleSrc',4),('nRGBExpand',4),('panBandList',8),('pasGCPs',8),('papszCreateOptions',8),('papszMetadataOptions',8),('pszOutputSRS',8),('pszOXSize',8),('pszOYSize',8)): vm.write(st,o,off(T,m),k,0)
    vm.write(st,o,off(T,'bDefBands'),4,1)
    for m in('dfULX','dfULY','dfLRX','dfLRY'): vm.write(st,o,off(T,m),8,z3.FPVal(0,z3.Float64()))
    for k in range(4): vm.write(st,o,off(T,'anSrcWin')+4*k,4,W[k])
    out=[z3.BitVec('outX',32),z3.BitVec('outY',32)]; txt=[]
    if resample:
        for k,m in enumerate(('pszOXSize','pszOYSize')):
            t=vm.new(st,m+' text',16,'heap',A8(m),const=False); txt.append(t); vm.write(st,o,off(T,m),8,Ptr(t,0)); st.assume(out[k]>=1); st.assume(z3.Select(A8(m),z3.BitVecVal(3,64))!=ord('%'))
        vm.assumptions.add('the target size is given in pixels (texts of four characters, atoi by contract)')
    def strl(v,s,a,I):
        if a[0].obj in txt: return 4
        if a[0].obj is wkt: return z3.BitVec('wkt length',64)
        return NotImplemented
    def atoi(v,s,a,I): return out[txt.index(a[0].obj)]
    ds=E.new(st,'ds','GDALDataset',dict(GetMetadata=lambda v,s,a,I:Ptr(md,0))); md=vm.new(st,'metadata',64,'heap',A8('md'),const=False); wkt=vm.new(st,'projection',64,'heap',A8('wkt'),const=False); src=vm.new(st,'source bands',norm(z3.simplify(8*N+8)),'heap',A8('source bands')); types=z3.Array('types',z3.BitVecSort(64),z3.BitVecSort(8))
    from sym import Unsupported
    isds=lambda p: isinstance(p,Ptr) and p.obj is ds and p.off==0
    def ofds(x):
        def f(v,s,a,I):
            U.result('the image is the one given',isds(a[0])) if not isds(a[0]) else None
            return x(v,s,a) if callable(x) else x
        return f
    tabs={nm:vm.new(st,'%s of the bands'%nm,norm(z3.simplify(8*N+8)),'heap',A8('tab '+nm),const=False) for nm,_ in TABS}; cnt=vm.new(st,'band count',4,'heap',A8('count'),const=False); vm.write(st,cnt,0,4,0)
    vb=vm.new(st,'bands of the view',norm(z3.simplify(8*N+8)),'heap',A8('vb'))
    def geo(v,s,a):
        if not georef: return 3
        (c,q),=v.resolve(s,a[1]); put(v,s,q.obj,q.off,g); return 0
    def create(v,s,a,I): s.ghost['created']=s.ghost.get('created',())+((a[0],a[1]),); return Ptr(vds,0)
    def setgt(v,s,a,I):
        (c,q),=v.resolve(s,a[1]); s.ghost['gt']=s.ghost.get('gt',())+([v.read(s,q.obj,q.off+8*k,8) for k in range(6)],); return 0
    def addband(v,s,a,I):
        c=bv(v.read(s,cnt,0,4),32)+1; v.oblige(s,z3.And(c>=1,c<=n),'no more bands than the image has'); v.write(s,tabs['type'],norm(z3.simplify(8*z3.SignExt(32,c))),4,a[1]); v.write(s,cnt,0,4,z3.simplify(c)); return 0
    def getband(v,s,a,I):
        i=bv(a[1],32); at=norm(z3.simplify(8*z3.SignExt(32,i)))
        if isds(a[0]): v.oblige(s,z3.And(i>=1,i<=n),'only the bands there are are asked for'); return Ptr(src,at)
        if isinstance(a[0],Ptr) and a[0].obj is vds: v.oblige(s,z3.And(i>=1,i<=bv(v.read(s,cnt,0,4),32)),'the bands of the view exist when they are set up'); return Ptr(vb,at)
        raise Unsupported('bands of something else')
    def index(p,o_):
        if not(isinstance(p,Ptr) and p.obj is o_): raise Unsupported('not a band of the %s'%o_.name)
        return z3.BitVecVal(p.off//8,64) if isinstance(p.off,int) else z3.simplify(z3.UDiv(bv(p.off,64),z3.BitVecVal(8,64)))
    def tab(v,s,nm,p,x):
        if not(isinstance(p,Ptr) and p.obj is vb): raise Unsupported('not a band of the view')
        v.write(s,tabs[nm],p.off,dict(TABS)[nm],x)
    def simple(v,s,a,I):
        tab(v,s,'source',a[0],index(a[1],src))
        for nm,x in zip(('x0','y0','w','h','dx0','dy0','dw','dh'),a[2:10]): tab(v,s,nm,a[0],x)
        return 0
    def info(v,s,a,I): tab(v,s,'info',a[0],index(a[1],src)); return 0
    vds=E.new(st,'vds','VRTDataset',dict(SetGeoTransform=setgt,SetProjection=lambda v,s,a,I: s.ghost.__setitem__('projection',s.ghost.get('projection',())+(a[1],)) or 0,SetMetadata=lambda v,s,a,I: s.ghost.__setitem__('metadata',s.ghost.get('metadata',())+((a[1],a[2]),)) or 0,AddBand=addband))
    E.free(prog,{r'GDALCheckVersion$':lambda v,s,a,I:1,r'GDALGetRasterXSize$':ofds(X),r'GDALGetRasterYSize$':ofds(Y),r'GDALGetRasterCount$':ofds(n),r'GDALGetGeoTransform$':ofds(geo),r'GDALGetProjectionRef$':ofds(Ptr(wkt,0)),r'GDALGetGCPCount$':ofds(0),
        r'CSLCount$':lambda v,s,a,I:0,r'CSLDestroy$':lambda v,s,a,I:None,r'CPLError$':lambda v,s,a,I: s.ghost.__setitem__('errors',s.ghost.get('errors',0)+1),r'CPLMalloc$':lambda v,s,a,I:Ptr(v.new(s,'band list',a[0],'heap',A8('band list'),const=False),0),
        r'VRTCreate$':create,r'GDALDataset::GetRasterBand\(':getband,r'GDALDataset::SetProjection\(':lambda v,s,a,I: s.ghost.__setitem__('projection',s.ghost.get('projection',())+(a[1],)) or 0,r'GDALRasterBand::GetRasterDataType\(':lambda v,s,a,I: z3.ZeroExt(24,z3.Select(types,index(a[0],src))),
        r'VRTSourcedRasterBand::AddSimpleSource\(':simple,r'VRTRasterBand::CopyCommonInfoFrom\(':info,r'strlen$':strl,r'atoi$':atoi})
    vm.assumptions.add('functions of the GDAL library have their documented meaning; at most 65535 bands; images georeferenced by control points, scaling, colour expansion, assigned bounds and band selections are not covered')
    import types as ty_
    return ty_.SimpleNamespace(**locals())
def valid(W,X,Y):
    """the window is non-empty and inside the image, computed without overflow"""
    import z3
    e=lambda x: z3.SignExt(32,x)
    return z3.And(W[0]>=0,W[1]>=0,W[2]>0,W[3]>0,e(W[0])+e(W[2])<=e(X),e(W[1])+e(W[3])<=e(Y))
def unit_translate(resample,case,georef=True):
    """case: 'inside' | 'outside' | 'whole' | 'unset' (the size of the window is not given)"""
    def f(U):
        import z3
        from sym import Ptr,bv,norm
        k=translate_setup(U,resample,georef); vm,st,W,X,Y,g=k.vm,k.st,k.W,k.X,k.Y,k.g; U.on_model=model('window',W,X,Y,k.out,k.n,g)
        unset=z3.And(W[2]==0,W[3]==0); whole=z3.And(W[0]==0,W[1]==0,W[2]==X,W[3]==Y)
        if case=='unset': st.assume(unset); st.assume(z3.Not(z3.And(W[0]==0,W[1]==0)))
        elif case=='outside': st.assume(z3.Not(unset)); st.assume(z3.Not(valid(W,X,Y)))
        elif case=='whole': st.assume(z3.Or(z3.And(unset,W[0]==0,W[1]==0),whole))
        else: st.assume(valid(W,X,Y)); st.assume(z3.Not(whole))
        outs=vm.call_fn(fn(k.prog,r'GDALTranslate::translate\('),[Ptr(k.o,0),Ptr(k.ds,0)],st)
        for out in U.rets(vm,outs,what='translate'):
            s=out.st; r=out.val; isnull=(not isinstance(r,Ptr) and z3.is_bv(r) is False and r==0) or isinstance(r,Ptr) and r.obj is None
            if case in('unset','outside'):
                U.result('a window outside the image is refused',isnull and s.ghost.get('errors',0)>0); continue
            if case=='whole' and not resample: U.result('the whole image is the image itself',isinstance(r,Ptr) and r.obj is k.ds); continue
            U.result('a view is delivered',isinstance(r,Ptr) and r.obj is k.vds and not s.ghost.get('errors'))
            c=s.ghost.get('created',()); U.result('one view is created',len(c)==1)
            if len(c)!=1: continue
            Z=W if case=='inside' else [z3.BitVecVal(0,32),z3.BitVecVal(0,32),X,Y]
            size=k.out if resample else [Z[2],Z[3]]
            for a,w,nm in zip(c[0],size,('width','height')): vm.oblige(s,bv(a,32)==w,'%s of the view'%nm)
            G=s.ghost.get('gt',()); U.result('the view is georeferenced when the image is',len(G)==int(georef))
            R=z3.RNE(); m=lambda a,b: z3.fpMul(R,a,b); dv=lambda a,b: z3.fpDiv(R,f64(a),f64(b)); x0,y0=f64(Z[0]),f64(Z[1])
            if G:
                sx,sy=(dv(Z[2],size[0]),dv(Z[3],size[1]))
                one=z3.FPVal(1,z3.Float64())
                if not resample: sx=sy=one
                want=[affine(g,0,x0,y0),m(g[1],sx),m(g[2],sy),affine(g,3,x0,y0),m(g[4],sx),m(g[5],sy)]
                for i,(a,w) in enumerate(zip(G[0],want)):
                    if not resample and i in(1,2,4,5):
                        # the code multiplies by size/size, which is 1 for a non-zero size
                        for u in(f64(Z[2]),f64(Z[3])):
                            a=z3.substitute(z3.simplify(a),(z3.simplify(z3.fpDiv(R,u,u)),one)); a=z3.substitute(a,(z3.fpDiv(R,u,u),one))
                        U.equal(vm,s,unit_factor(a,one),g[i],'the pixels of the view are as large as those of the image',64); continue
                    U.equal(vm,s,a,w,'a pixel of the view lies where it lies in the image (coefficient %d)'%i,64)
            P=s.ghost.get('projection',()); 
            if P: ptr_is(U,P[0],k.wkt,'the projection is that of the image')
            else: vm.oblige(s,z3.BitVec('wkt length',64)==0,'the projection is that of the image')
            M=[a for a,d in s.ghost.get('metadata',()) if isinstance(a,Ptr) and a.obj is k.md]; U.result('the metadata are those of the image',len(M)>=1)
            vm.oblige(s,bv(vm.read(s,k.cnt,0,4),32)==k.n,'the view has the bands of the image')
            s=s.fork(); i=z3.BitVec('i',64); s.assume(z3.And(z3.UGE(i,1),z3.ULE(i,k.N))); rd=lambda nm: vm.read(s,k.tabs[nm],norm(z3.simplify(8*i)),dict(TABS)[nm])
            U.equal(vm,s,rd('type'),z3.ZeroExt(24,z3.Select(k.types,i)),'type of a band',32); U.equal(vm,s,rd('source'),i,'a band shows the band of the image with its number',64); U.equal(vm,s,rd('info'),i,'a band describes the band of the image with its number',64)
            zero=z3.FPVal(0,z3.Float64())
            for nm,w in zip(('x0','y0','w','h','dx0','dy0','dw','dh'),[f64(z) for z in Z]+[zero,zero]+[f64(z) for z in size]): U.equal(vm,s,rd(nm),w,'%s: the pixels come from the window asked for'%nm,64)
    return f
def unit_factor(e,one):
    """x*1 -> x"""
    import z3
    e=z3.simplify(e)
    if z3.is_app(e) and e.decl().kind()==z3.Z3_OP_FPA_MUL:
        a,b=e.arg(1),e.arg(2)
        if a.eq(one): return b
        if b.eq(one): return a
    return e
def unit_recode(sized,answer):
    """sized: the overload with a target size; answer of translate: 'view' | 'image' | 'none'"""
    def f(U):
        import z3
        from sym import State,Ptr,bv,Unsupported
        prog,vm,st,E=setup(U,extra=[build.emit_ir(TR)]); B=[z3.BitVec(n,64) for n in('left','top','right','bottom')]
        for b in B: st.assume(z3.And(b>=-(1<<29),b<=1<<29))
        vm.assumptions.add('image coordinates of a crop area are within +-2^29'); sx,sy=z3.BitVec('sx',32),z3.BitVec('sy',32); U.on_model=model('recode',B,(sx,sy))
        box=vm.new(st,'crop',32,'heap',A8('crop'),const=False); C='msat::proj::ImageBox'
        for k,m in enumerate(('topLeft.column','topLeft.line','bottomRight.column','bottomRight.line')): vm.write(st,box,off(C,m),8,B[k])
        new=lambda n,size=64: vm.new(st,n,size,'heap',A8(n),const=False)
        ds,vds,drv,res=new('ds'),new('vds'),new('driver'),new('copy'); texts=[new('text %d'%k,1<<20) for k in range(4)]; strs=[]
        for k in range(4):
            o=new('string %d'%k,32); vm.write(st,o,0,8,Ptr(texts[k],0)); vm.write(st,o,8,8,z3.BitVec('length %d'%k,64)); strs.append(o)
        num={}
        def tostring(v,s,a,I):
            (c,q),=v.resolve(s,a[0]); t=v.new(s,'number',16,'heap',A8('number%d'%len(num)),const=False); num[t.name,id(t)]=(t,a[1]); v.write(s,q.obj,q.off,8,Ptr(t,0)); v.write(s,q.obj,q.off+8,8,z3.BitVec('digits',64)); return None
        rd=lambda n: (lambda v,s,a,I: (lambda q: v.read(s,q[0][1].obj,q[0][1].off+n,8))(v.resolve(s,a[0])))
        def trans(v,s,a,I):
            (c,q),=v.resolve(s,a[0]); m=lambda x,n,at=0: v.read(s,q.obj,(q.off if isinstance(q.off,int) else 0)+off(T,x)+at,n)
            s.ghost['tr']=s.ghost.get('tr',())+(([m('anSrcWin',4,4*k) for k in range(4)],m('pszOXSize',8),m('pszOYSize',8),a[1],[m(x,4) for x in('nBandCount','bScale','nGCPCount','bGotBounds','nRGBExpand','bSetNoData','eOutputType')],[m(x,8) for x in('dfULX','dfULY','dfLRX','dfLRY')]),)
            return Ptr(None,0) if answer=='none' else Ptr(ds if answer=='image' else vds,0)
        def copy(v,s,a,I): s.ghost['copy']=s.ghost.get('copy',())+(tuple(a),); return Ptr(None,0) if answer=='none' else Ptr(res,0)
        def close(v,s,a,I): s.ghost['closed']=s.ghost.get('closed',())+(a[0],); return None
        al=[(a,prog.dem.get(b,b)) for mm in prog.mods for a,b in mm.aliases.items()]
        opts=new('options'); flag=new('passed on',4)
        for k in range(4): vm.write(st,flag,k,1,0)
        def addopt(v,s,a,I):
            for c,q in v.resolve(s,a[1]):
                if not(isinstance(q,Ptr) and q.obj in texts): raise Unsupported('an option that is not one of the texts given')
                from sym import vite
                k=texts.index(q.obj); v.write(s,flag,k,1,vite(c,1,v.read(s,flag,k,1),1))
            return Ptr(opts,0)
        for nm,d in list(prog.dem.items())+al:
            d=d.replace('[abi:cxx11]','')
            if re.match(r'GDALTranslate::translate\(',d): vm.contracts[nm]=trans
            if re.match(r'(std::__cxx11|std)::to_string\(int\)',d): vm.contracts[nm]=tostring
            if re.match(r'std::__cxx11::basic_string<.*>::~basic_string\(\)$',d): vm.contracts[nm]=lambda v,s,a,I:None
            if re.match(r'std::__cxx11::basic_string<.*>::(c_str|data)\(\) const$',d): vm.contracts[nm]=rd(0)
            if re.match(r'std::__cxx11::basic_string<.*>::empty\(\) const$',d): vm.contracts[nm]=lambda v,s,a,I: rd(8)(v,s,a,I)==0
        E.free(prog,{r'GDALCreateCopy$':copy,r'GDALClose$':close,r'CSLAddString$':addopt,r'CSLDestroy$':lambda v,s,a,I:None,r'CPLFree$|VSIFree$':lambda v,s,a,I:None,r'GDALDataset::GetRasterXSize':lambda v,s,a,I:z3.BitVec('X',32),r'GDALDataset::GetRasterYSize':lambda v,s,a,I:z3.BitVec('Y',32)})
        if sized==2:
            F=fn(prog,r'msat::dataset::recode\(GDALDataset\*, int, int'); args=[sx,sy]; want=[0,0,z3.BitVec('X',32),z3.BitVec('Y',32)]
        else:
            F=fn(prog,r'msat::dataset::recode\(GDALDataset\*, msat::proj::ImageBox const&, int, int' if sized else r'msat::dataset::recode\(GDALDataset\*, msat::proj::ImageBox const&, std'); args=[Ptr(box,0)]+([sx,sy] if sized else []); L=[z3.Extract(31,0,b) for b in B]; want=[L[0],L[1],L[2]-L[0],L[3]-L[1]]
        size=[sx,sy] if sized else want[2:]
        for out in U.rets(vm,vm.call_fn(F,[Ptr(ds,0)]+args+[Ptr(strs[0],0),Ptr(drv,0)]+[Ptr(x,0) for x in strs[1:]],st),what='recode'):
            s=out.st; t=s.ghost.get('tr',()); U.result('the image is translated once',len(t)==1)
            if len(t)!=1: continue
            win,ox,oy,src,zeros,proj=t[0]; ptr_is(U,src,ds,'the image is the one given')
            for a,b,n in zip(win,want,('left','top','width','height')): U.equal(vm,s,a,b,'%s of the window is that of the crop area'%n,32)
            for a in zeros: vm.oblige(s,bv(a,32)==0,'nothing else is asked for')
            for k,(p,n) in enumerate(((ox,'width'),(oy,'height'))):
                for cond,p in vm.resolve(s,p) if not isinstance(p,int) else [(z3.BoolVal(True),Ptr(None,0))]:
                    h=[v for o,v in num.values() if o is p.obj]; w=win[2+k] if p.obj is None else h[0] if h else None
                    if w is None: raise Unsupported('target size %r'%p)
                    vm.oblige(s,z3.Implies(cond,bv(w,32)==size[k]),'%s of the output'%n)
            c=s.ghost.get('copy',()); U.result('the output is created once',len(c)==1 or answer=='none' and not c)
            if c: ptr_is(U,c[0][0],drv,'by the driver given'); ptr_is(U,c[0][1],texts[0],'under the name given'); U.result('from the translated image',isinstance(c[0][2],Ptr) and c[0][2].obj is (None if answer=='none' else ds if answer=='image' else vds))
            U.result('the output is what is returned',isinstance(out.val,Ptr) and out.val.obj is (None if answer=='none' else res))
            cl=[p.obj for p in s.ghost.get('closed',()) if isinstance(p,Ptr) and p.obj is not None]; U.result('the view is closed and the image is not',cl==([vds] if answer=='view' else []))
            for k in(1,2,3): vm.oblige(s,(z3.BitVec('length %d'%k,64)!=0)==(bv(vm.read(s,flag,k,1),8)==1),'the options given are passed on')
    return f
