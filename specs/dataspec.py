"""xRIT data access (C11 scanlines, C12 segment cache): units over msat/xrit/dataaccess.cpp."""
import re, build, layout, contracts
SRC='msat/xrit/dataaccess.cpp'; CLS='msat::xrit::DataAccess'
INC='#include <msat/xrit/dataaccess.h>\n#include <msat/xrit/fileaccess.h>\n#include <msat/hrit/MSG_HRIT.h>\nstatic int z=sizeof(msat::xrit::DataAccess)+sizeof(MSG_data)+sizeof(MSG_header)+sizeof(msat::xrit::FileAccess)+sizeof(MSG_data_image)+sizeof(MSG_header_segment_id)+sizeof(MSG_header_image_struct)+sizeof(MSG_header_image_navig)+sizeof(MSG_data_level_15_trailer);'
SZ=['npixperseg','seglines','columns','lines','LowerEastColumnActual','LowerSouthLineActual','LowerWestColumnActual','LowerNorthLineActual','UpperEastColumnActual','UpperSouthLineActual','UpperWestColumnActual','UpperNorthLineActual','MaxLineActual','SouthLineActual','WestColumnActual']
_l=[]
def lay():
    if not _l: _l.append(layout.dump(INC))
    return _l[0]
def off(cls,path):
    from sym import Unsupported
    for l in lay()[cls][1]:
        if l[6]==path and not l[5] or l[6]==path and l[0]==1: return l[1]
    raise Unsupported('%s has no member %s on this tree'%(cls,path))
STR=r'std::(?:__cxx11::)?basic_string<char.*>::'
def begin(U,extra=()):
    import z3
    from sym import State,Ptr,norm
    prog=U.prog([build.emit_ir(SRC)]+[build.emit_ir(s) for s in extra]); vm=U.vm(prog); st=State()
    this=vm.new(st,'this',lay()[CLS][0],'heap',z3.Array('da',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
    g={n:z3.BitVec(n,64) for n in SZ}
    for n in SZ: vm.write(st,this,off(CLS,n),8,g[n])
    for n in('swapX','swapY','hrv'): g[n]=z3.Bool(n); vm.write(st,this,off(CLS,n),1,z3.If(g[n],z3.BitVecVal(1,8),z3.BitVecVal(0,8)))
    return prog,vm,st,this,g
def method(prog,name):
    from sym import Unsupported
    l=[n for n,f in prog.funcs.items() if not f.decl and prog.dem.get(n,'').startswith('%s::%s('%(CLS,name))]
    if not l: raise Unsupported('no %s::%s on this tree'%(CLS,name))
    return l
# ---------------------------------------------------------------- strings and segment objects by contract
def names(vm,prog,st,this,N,isempty):
    """segnames: N names; name i is empty iff isempty(i). Strings carry a ghost tag: the index of the name they are a copy of"""
    import z3
    from sym import Ptr,bv,norm,Unsupported
    from exec import DeadPath
    S=vm.new(st,'segnames',norm(z3.simplify(32*N)),'heap',z3.Array('names',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
    o=off(CLS,'segnames'); vm.write(st,this,o,8,Ptr(S,0)); vm.write(st,this,o+8,8,Ptr(S,norm(z3.simplify(32*N)))); vm.write(st,this,o+16,8,Ptr(S,norm(z3.simplify(32*N))))
    def one(vm_,st_,p):
        r=vm_.resolve(st_,p)
        if len(r)!=1 or not isinstance(r[0][1],Ptr): raise Unsupported('conditional string')
        return r[0][1]
    def tag(vm_,st_,p):
        q=one(vm_,st_,p)
        if q.obj is S:
            if not vm_.chk(st_,True,q,32,'name of a segment'): raise DeadPath()
            return ('name',norm(z3.simplify(z3.LShR(bv(q.off,64),5))) if not isinstance(q.off,int) else q.off>>5)
        if 'tag' in q.obj.meta: return q.obj.meta['tag']
        return dict(st_.ghost.get('tags',())).get((q.obj.id,q.off))
    def settag(vm_,st_,p,t):
        q=one(vm_,st_,p)
        if q.obj is S: raise Unsupported('a segment name is modified')
        d=dict(st_.ghost.get('tags',())); d[(q.obj.id,q.off)]=t; st_.ghost['tags']=tuple(d.items())
    def cstr(vm_,st_,a,I):
        o=vm_.new(st_,'chars',4096,'heap',z3.Array('ch',z3.BitVecSort(64),z3.BitVecSort(8))); o.meta['tag']=tag(vm_,st_,a[0]); return Ptr(o,0)
    def copy(vm_,st_,a,I): settag(vm_,st_,a[0],tag(vm_,st_,a[1])); return a[0]
    def empty(vm_,st_,a,I):
        t=tag(vm_,st_,a[0])
        if t is None or t[0]!='name': raise Unsupported('length of an unknown string')
        return isempty(bv(t[1],64))
    def size(vm_,st_,a,I): 
        e=empty(vm_,st_,a,I); return z3.If(e,z3.BitVecVal(0,64),z3.BitVecVal(40,64))
    for nm,d in prog.dem.items():
        m=re.match(STR+r'(.*)$',d)
        if not m: continue
        k=m.group(1)
        if re.match(r'(c_str|data)\(\)',k): vm.contracts[nm]=cstr
        elif re.match(r'basic_string(<.*>)?\(char const\*, ',k) or re.match(r'basic_string\((std::(__cxx11::)?basic_string<char.*>) ?(const&|&&)\)',k) or re.match(r'(operator=|assign)\((std::(__cxx11::)?basic_string<char.*>) ?(const&|&&)\)',k): vm.contracts[nm]=copy
        elif re.match(r'empty\(\)',k): vm.contracts[nm]=empty
        elif re.match(r'(size|length)\(\)',k): vm.contracts[nm]=size
    vm.assumptions.add('std::string copies, c_str() and empty() have their documented meaning')
    return tag
def segments(vm,prog,tag):
    """MSG_data objects: construction, destruction and read_file by contract"""
    from sym import Ptr,Unsupported,Outcome,TRUE,FALSE
    import models
    def one(vm_,st_,p):
        r=vm_.resolve(st_,p)
        if len(r)!=1: raise Unsupported('conditional object')
        return r[0][1]
    def ctor(vm_,st_,a,I):
        q=one(vm_,st_,a[0]); vm_.chk(st_,True,q,lay()['MSG_data'][0],'MSG_data constructor'); st_.ghost['live']=st_.ghost.get('live',frozenset())|{q.obj.id}; st_.ghost['made']=st_.ghost.get('made',())+(q.obj,); return None
    def dtor(vm_,st_,a,I):
        q=one(vm_,st_,a[0])
        vm_.oblige(st_,q.obj is not None and q.obj.id in st_.ghost.get('live',()),'only a loaded segment is released, and only once'); st_.ghost['live']=st_.ghost.get('live',frozenset())-{q.obj.id if q.obj else -1}; return None
    def rd(vm_,st_,a,I):
        t=tag(vm_,st_,a[1]); q=one(vm_,st_,a[3]); f=st_.fork(); st_.ghost['loaded']=st_.ghost.get('loaded',())+((q.obj.id,t),); f.ghost['failed']=f.ghost.get('failed',0)+1
        vm_.oblige(st_,q.obj.id in st_.ghost.get('live',()),'a segment is loaded into a live object')
        return [Outcome('ret',st_,None),models.throw(vm_,f,'_ZTISt13runtime_error')]
    for nm,d in prog.dem.items():
        if re.match(r'MSG_data::MSG_data\(\)',d): vm.contracts[nm]=ctor
        elif re.match(r'MSG_data::~MSG_data\(\)',d): vm.contracts[nm]=dtor
        elif re.match(r'MSG_header::~?MSG_header\(\)',d): vm.contracts[nm]=lambda vm_,st_,a,I: None
        elif re.match(re.escape(CLS)+r'::read_file\(.*MSG_header&, MSG_data&\)',d): vm.contracts[nm]=rd
    vm.assumptions.add('MSG_data and MSG_header constructors and destructors only affect their own object (allocation failure not modelled)')
def scache():
    from sym import Unsupported
    try: L=layout.dump('#include <msat/xrit/dataaccess.h>\nstatic int z=sizeof(msat::xrit::DataAccess::scache);'); k=[k for k in L if k.endswith('DataAccess::scache')][0]; off(CLS,'segcache._M_impl._M_map')
    except(build.InfraError,IndexError,RuntimeError): raise Unsupported('other cache representation')
    return L[k][0],{l[3]:l[1] for l in L[k][1]}
def cache(vm,st,this,n):
    """segcache holding n entries (libstdc++ deque; the entries are in one node, with room on both sides)"""
    import z3
    from sym import Ptr
    L=lay(); es,eo=scache(); per=512//es; mid=per//2
    node=vm.new(st,'node',512,'heap',z3.Array('node',z3.BitVecSort(64),z3.BitVecSort(8)),const=False); mp=vm.new(st,'map',64,'heap',z3.Array('map',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
    vm.write(st,mp,24,8,Ptr(node,0)); b='segcache._M_impl.'
    vm.write(st,this,off(CLS,b+'_M_map'),8,Ptr(mp,0)); vm.write(st,this,off(CLS,b+'_M_map_size'),8,8)
    for it,k in(('_M_start',mid),('_M_finish',mid+n)):
        for f,v in(('_M_cur',Ptr(node,k*es)),('_M_first',Ptr(node,0)),('_M_last',Ptr(node,512)),('_M_node',Ptr(mp,24))): vm.write(st,this,off(CLS,b+it+'.'+f),8,v)
    ids=[z3.BitVec('segno%d'%i,64) for i in range(n)]; objs=[]
    for i in range(n):
        o=vm.new(st,'segment%d'%i,L['MSG_data'][0],'heap',z3.Array('seg%d'%i,z3.BitVecSort(64),z3.BitVecSort(8)),const=False); objs.append(o)
        vm.write(st,node,(mid+i)*es+eo['segment'],8,Ptr(o,0)); vm.write(st,node,(mid+i)*es+eo['segno'],8,ids[i])
    st.ghost['live']=frozenset(o.id for o in objs)
    for i in range(n):
        for j in range(i): st.assume(ids[i]!=ids[j])
    return ids,objs
def entries(vm,st,this):
    """[(segno, Ptr)] of the cache after the call, or None when it is not of the expected form"""
    es,eo=scache(); b='segcache._M_impl.'
    from sym import Ptr,Unsupported
    a=vm.read(st,this,off(CLS,b+'_M_start._M_cur'),8); z=vm.read(st,this,off(CLS,b+'_M_finish._M_cur'),8)
    a,z=[vm.resolve(st,p) for p in(a,z)]
    if len(a)!=1 or len(z)!=1: raise Unsupported('conditional cache position')
    a,z=a[0][1],z[0][1]
    if a.obj is not z.obj or not isinstance(a.off,int) or not isinstance(z.off,int): raise Unsupported('cache spread over several nodes')
    return [(vm.read(st,a.obj,o+eo['segno'],8),vm.read(st,a.obj,o+eo['segment'],8)) for o in range(a.off,z.off,es)]
def unit_segment(n,hit):
    """segment(idx) with n cached segments; hit: idx is the i-th cached one (or None: not cached)"""
    def fn(U):
        import z3
        from sym import Ptr,bv,Unsupported,FALSE,TRUE,simp
        prog,vm,st,this,g=begin(U); E=z3.Function('emptyname',z3.BitVecSort(64),z3.BoolSort()); N=z3.BitVec('nseg',64); st.assume(z3.ULE(N,1<<32))
        tag=names(vm,prog,st,this,N,lambda i:E(i)); segments(vm,prog,tag); contracts.opaque_strings(vm,prog)
        ids,objs=cache(vm,st,this,n); idx=z3.BitVec('idx',64)
        for i,o in zip(ids,objs): st.assume(z3.ULT(i,N))
        if hit is None:
            for i in ids: st.assume(i!=idx)
        else: st.assume(ids[hit]==idx)
        outs=vm.call_fn(prog.funcs[method(prog,'segment')[0]],[Ptr(this,0),idx],st)
        avail=z3.And(z3.ULT(idx,N),z3.Not(E(idx)))
        for o in outs:
            if o.kind=='throw': vm.oblige(o.st,o.st.ghost.get('failed',0)>0 and str(o.val.tinfo).startswith('_ZTISt'),'a request fails only because the segment cannot be loaded')
        for o in U.rets(vm,outs,allow=('ret','throw'),what='segment')+[o for o in outs if o.kind=='throw']:
            en=entries(vm,o.st,this); live=o.st.ghost['live']; w='' if o.kind=='ret' else ' (after a failed load)'
            loaded=dict(o.st.ghost.get('loaded',())); seg=[]
            vm.oblige(o.st,len(en)<=2,'at most two segments stay loaded'+w)
            for sn,p in en:
                alts=vm.resolve(o.st,p)
                if len(alts)!=1 or not isinstance(alts[0][1],Ptr) or alts[0][1].obj is None: vm.oblige(o.st,FALSE,'every cache entry is a loaded segment'+w); continue
                ob=alts[0][1].obj; seg.append(ob.id)
                vm.oblige(o.st,ob.id in live and ob.id not in o.st.freed,'every cached segment is still loaded'+w)
                if ob in objs: vm.oblige(o.st,bv(sn,64)==ids[objs.index(ob)],'a cached segment keeps its number'+w)
                else: vm.oblige(o.st,z3.And(bv(sn,64)==idx,same_tag(loaded.get(ob.id),idx)),'a new entry is the segment just loaded from the file of its number'+w)
            vm.oblige(o.st,len(set(seg))==len(seg) and all(True for _ in seg),'no segment is cached twice'+w)
            for i in range(len(en)):
                for j in range(i): vm.oblige(o.st,bv(en[i][0],64)!=bv(en[j][0],64),'each number is cached once'+w)
            vm.oblige(o.st,set(live)==set(seg),'every segment that is loaded is in the cache (the others are released)'+w)
            for ob in list(objs)+list(o.st.ghost.get('made',())):
                if ob.id not in live: vm.oblige(o.st,ob.id in o.st.freed,'the memory of a released segment is returned'+w)
            if o.kind!='ret': continue
            for c,q in vm.resolve(o.st,o.val):
                s=o.st.fork()
                if c is not True: s.assume(c)
                if not vm.feasible_pc(s): continue
                if q.obj is None: vm.oblige(s,z3.Not(avail) if hit is None else FALSE,'nothing is returned only for a segment that does not exist'); continue
                vm.oblige(s,q.obj.id in live and q.off==0,'the segment returned is one that is loaded')
                if hit is not None: vm.oblige(s,q.obj is objs[hit],'the cached segment is the one returned'); continue
                vm.oblige(s,z3.And(avail,same_tag(loaded.get(q.obj.id),idx)),'the segment returned was loaded from the file with the number requested')
    return fn
def same_tag(t,idx):
    import z3
    from sym import bv
    if t is None or t[0]!='name': return z3.BoolVal(False)
    return bv(t[1],64)==idx
def unit_destroy(n):
    def fn(U):
        import z3
        from sym import Ptr
        prog,vm,st,this,g=begin(U); E=z3.Function('emptyname',z3.BitVecSort(64),z3.BoolSort()); tag=names(vm,prog,st,this,z3.BitVecVal(0,64),lambda i:E(i)); segments(vm,prog,tag); contracts.opaque_strings(vm,prog)
        ids,objs=cache(vm,st,this,n)
        for nm,d in prog.dem.items():
            if re.match(r'std::vector<std::(__cxx11::)?basic_string<char.*>::~vector\(\)',d): vm.contracts[nm]=lambda vm_,st_,a,I: None
        for o in U.rets(vm,vm.call_fn(prog.funcs[method(prog,'~DataAccess')[0]],[Ptr(this,0)],st),what='~DataAccess'):
            vm.oblige(o.st,not o.st.ghost['live'],'all the cached segments are released'); vm.oblige(o.st,all(b.id in o.st.freed for b in objs),'their memory is returned')
    return fn
def unit_fresh(U):
    """a new DataAccess has an empty cache and no segments"""
    import z3
    from sym import Ptr
    prog,vm,st,this,g=begin(U); contracts.opaque_strings(vm,prog)
    for o in U.rets(vm,vm.call_fn(prog.funcs[method(prog,'DataAccess')[0]],[Ptr(this,0)],st),what='DataAccess'):
        U.result('the cache of a new DataAccess is empty',entries(vm,o.st,this)==[])
        a,z=[vm.read(o.st,this,off(CLS,'segnames._M_impl.'+f),8) for f in('_M_start','_M_finish')]
        U.result('a new DataAccess has no segments',a.obj is z.obj and a.off==z.off)
# ---------------------------------------------------------------- C11
def geometry(st,g):
    import z3
    st.assume(z3.And(g['seglines']!=0,z3.ULE(g['seglines'],1<<16),z3.ULE(g['columns'],1<<16)))
    for n in SZ:
        if n.endswith('Actual'): st.assume(z3.ULE(g[n],1<<32))
    st.assume(z3.Or(g['hrv'],z3.And(g['SouthLineActual']==1,g['WestColumnActual']==1)))
    st.assume(g['MaxLineActual']==z3.If(z3.UGT(g['LowerNorthLineActual'],g['UpperNorthLineActual']),g['LowerNorthLineActual'],g['UpperNorthLineActual']))
def unit_line_read(hrv,swap):
    def fn(U):
        import z3
        from sym import Ptr,bv,norm,NULL,FALSE,Outcome,Unsupported
        prog,vm,st,this,g=begin(U); geometry(st,g); contracts.opaque_strings(vm,prog)
        vm.write(st,this,off(CLS,'hrv'),1,int(hrv)); st.assume(g['hrv'] if hrv else z3.Not(g['hrv'])); vm.write(st,this,off(CLS,'swapX'),1,int(swap))
        L=lay(); line=z3.BitVec('line',64); st.assume(z3.ULE(line,1<<32)); cols=g['columns']; sl=g['seglines']
        px=norm(z3.simplify(2*cols)); buf=vm.new(st,'buf',px,'arg',z3.Array('old',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
        rows=z3.BitVec('rows',64) # lines of data in the segment
        img=z3.Array('img',z3.BitVecSort(64),z3.BitVecSort(8)); SEG=z3.BitVec('segreq',64)
        have=z3.Bool('segment_exists'); data=vm.new(st,'samples',norm(z3.simplify(2*cols*sl)),'heap',img); im=vm.new(st,'image',L['MSG_data_image'][0],'heap','zero'); d=vm.new(st,'segment',L['MSG_data'][0],'heap','zero')
        io={l[3]:l[1] for l in L['MSG_data_image'][1]}; do={l[3]:l[1] for l in L['MSG_data'][1]}
        vm.write(st,im,io['data'],8,Ptr(data,0)); vm.write(st,d,do['image'],8,Ptr(im,0)); st.ghost['seg']=None
        def seg(vm_,st_,a,I):
            if st_.ghost.get('seg') is not None: raise Unsupported('more than one segment requested')
            st_.ghost['seg']=a[1]; n=st_.fork(); n.assume(z3.Not(have)); st_.assume(have)
            return [Outcome('ret',st_,Ptr(d,0)),Outcome('ret',n,NULL)]
        for m in method(prog,'segment'): vm.contracts[m]=seg
        row=(g['MaxLineActual']-1-line) if hrv else (3711-line); ok=z3.ULT(line,g['MaxLineActual']) if hrv else z3.ULT(line,3712)
        # lemma (products of numbers below 2^16): r < seglines implies r*columns+columns <= seglines*columns
        r,s_,c=z3.Ints('r s c'); Q=z3.Solver(); Q.add(r>=0,r+1<=s_,s_<=65536,c>=0,c<=65536,z3.Not(z3.And(r*c+c<=s_*c,s_*c<2**33)))
        U.result('lemma: (r+1)*c <= s*c',Q.check()==z3.unsat)
        rm=z3.URem(row,sl); st.assume(z3.And(z3.ULE(rm*cols+cols,sl*cols),z3.ULE(rm*cols,sl*cols),z3.ULE(sl*cols,1<<33)))
        U.on_model=lambda ev,o:('line',hrv,swap,[ev(x).as_long() for x in(line,cols,sl,g['MaxLineActual'])])
        j=z3.BitVec('j',64)
        for o in U.rets(vm,vm.call_fn(prog.funcs[method(prog,'line_read')[0]],[Ptr(this,0),line,Ptr(buf,0)],st),what='line_read'):
            s=o.st.fork(); sg=s.ghost.get('seg'); nm='HRV' if hrv else 'non-HRV'
            s.assume(z3.ULT(j,cols))
            if sg is None: vm.oblige(s,z3.Not(ok),'%s: a line of the image is read from a segment'%nm); continue
            e=s.fork(); e.assume(z3.Not(have))
            if vm.feasible_pc(e):
                if U.equal(vm,e,bv(vm.read(e,buf,norm(z3.simplify(2*j)),2),16),z3.BitVecVal(0,16),'%s: the samples of a line that is not available are zero'%nm,16): U.ok('zero line')
                i=e.fork(); i.assume(ok); vm.oblige(i,bv(sg,64)==z3.UDiv(row,sl),'%s: the segment asked for is the one of the line'%nm)
            s.assume(have)
            if not vm.feasible_pc(s): continue
            got=bv(vm.read(s,buf,norm(z3.simplify(2*j)),2),16)
            i=s.fork(); i.assume(ok); vm.oblige(i,bv(sg,64)==z3.UDiv(row,sl),'%s: the segment read is the one of the line'%nm)
            src=cols-1-j if swap else j
            # the position of the line is a multiple of the line length: both sides use the remainder as an unknown r
            want=z3.Concat(*[z3.Select(img,2*(z3.URem(row,sl)*cols+src)+k) for k in(1,0)])
            vm.oblige(i,got==want,'%s: sample j is sample %s of line row%%seglines of that segment'%(nm,'columns-1-j' if swap else 'j'))
            x=s.fork(); x.assume(z3.Not(ok)); vm.oblige(x,z3.UGE(bv(sg,64),1<<32),'%s: a line outside the image asks for no existing segment'%nm)
    return fn
def unit_line_start(U):
    import z3
    from sym import Ptr,bv
    prog,vm,st,this,g=begin(U); geometry(st,g); contracts.opaque_strings(vm,prog); line=z3.BitVec('line',64); st.assume(z3.ULE(line,1<<40))
    G=lambda n:g[n]; l=G('MaxLineActual')-line
    win=lambda p:z3.And(z3.ULE(G(p+'SouthLineActual'),l),z3.ULE(l,G(p+'NorthLineActual')))
    st.assume(z3.Or(z3.Not(g['hrv']),z3.ULE(G('LowerWestColumnActual'),11136))); st.assume(z3.Or(z3.Not(g['hrv']),z3.ULE(G('UpperWestColumnActual'),11136)))
    # the two windows of the HRV image: the lower one lies south of the upper one
    st.assume(z3.Or(z3.Not(g['hrv']),z3.ULE(G('LowerSouthLineActual'),G('LowerNorthLineActual'))))
    want=z3.If(z3.Not(g['hrv']),z3.BitVecVal(0,64),z3.If(z3.UGE(line,G('MaxLineActual')),z3.BitVecVal(0,64),z3.If(win('Lower'),11136-G('LowerWestColumnActual'),z3.If(win('Upper'),11136-G('UpperWestColumnActual'),z3.BitVecVal(0,64)))))
    st.assume(z3.Or(z3.ULT(G('LowerNorthLineActual'),G('UpperSouthLineActual')),z3.UGT(G('UpperSouthLineActual'),G('UpperNorthLineActual'))))
    U.on_model=lambda ev,o:('start',[ev(x).as_long() for x in[line]+[g[n] for n in SZ if n.endswith('Actual')]],bool(ev(g['hrv'])))
    for o in U.rets(vm,vm.call_fn(prog.funcs[method(prog,'line_start')[0]],[Ptr(this,0),line],st),what='line_start'):
        vm.oblige(o.st,bv(o.val,64)==want,'a line starts at the western limit of the coverage window it lies in')
def unit_scan_segment(U):
    import z3
    from sym import Ptr,bv
    prog,vm,st,this,g=begin(U); contracts.opaque_strings(vm,prog); L=lay()
    h=vm.new(st,'header',L['MSG_header'][0],'heap','zero'); ho={l[3]:l[1] for l in L['MSG_header'][1]}; subs={}
    for m,c in(('segment_id','MSG_header_segment_id'),('image_structure','MSG_header_image_struct'),('image_navigation','MSG_header_image_navig')):
        subs[m]=vm.new(st,m,L[c][0],'heap',z3.Array(m,z3.BitVecSort(64),z3.BitVecSort(8))); vm.write(st,h,ho[m],8,Ptr(subs[m],0))
    def f(m,c,name,n): return bv(vm.read(st,subs[m],{l[3]:l[1] for l in L[c][1]}[name],n),8*n)
    seg=lambda n,k:f('segment_id','MSG_header_segment_id',n,k); ist=lambda n,k:f('image_structure','MSG_header_image_struct',n,k); nav=lambda n,k:f('image_navigation','MSG_header_image_navig',n,k)
    end=z3.ZeroExt(48,seg('planned_end_segment_sequence_number',2)); nl=z3.ZeroExt(48,ist('number_of_lines',2)); nc=z3.ZeroExt(48,ist('number_of_columns',2)); ch=seg('spectral_channel_id',1)
    b=lambda c:z3.If(c,z3.BitVecVal(1,8),z3.BitVecVal(0,8))
    want=dict(seglines=nl,columns=nc,lines=nl*end,npixperseg=nc*nl,hrv=b(ch==12),swapX=b(nav('column_scaling_factor',4)<0),swapY=b(nav('line_scaling_factor',4)<0))
    for o in U.rets(vm,vm.call_fn(prog.funcs[method(prog,'scanSegment')[0]],[Ptr(this,0),Ptr(h,0)],st),what='scanSegment'):
        for k,w in want.items(): vm.oblige(o.st,bv(vm.read(o.st,this,off(CLS,k),w.size()//8),w.size())==w,'%s is the value of the segment header'%k)
# ---------------------------------------------------------------- scan()
COV=['LowerSouthLineActual','LowerNorthLineActual','LowerEastColumnActual','LowerWestColumnActual','UpperSouthLineActual','UpperNorthLineActual','UpperEastColumnActual','UpperWestColumnActual']
def unit_scan(k,hrv):
    """scan() of k segment files into a fresh DataAccess"""
    def fn(U):
        import z3, models
        from sym import Ptr,bv,norm,NULL,FALSE,TRUE,Outcome,Unsupported
        from exec import DeadPath
        prog,vm,st,this,g=begin(U); contracts.opaque_strings(vm,prog); L=lay(); S=None
        BIG=1<<40; S=vm.new(st,'segnames',BIG,'heap',z3.Array('names',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
        o=off(CLS,'segnames'); NULLV=Ptr(S,0)
        for d in(0,8,16): vm.write(st,this,o+d,8,NULLV)
        files=vm.new(st,'segfiles',max(32*k,32),'heap',z3.Array('sf',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
        subs=[{m:vm.new(st,'%s%d'%(m,i),L[c][0],'heap',z3.Array('%s%d'%(m,i),z3.BitVecSort(64),z3.BitVecSort(8))) for m,c in SUB.items()} for i in range(k)]
        has=[{m:z3.Bool('has_%s%d'%(m,i)) for m in SUB} for i in range(k)]
        fld=lambda i,m,n,w:bv(vm.read(st,subs[i][m],{l[3]:l[1] for l in L[SUB[m]][1]}[n],w),8*w)
        hd=vm.new(st,'header',L['MSG_header'][0],'heap','zero',const=False); ho={l[3]:l[1] for l in L['MSG_header'][1]}
        pro=vm.new(st,'pro',L['MSG_data'][0],'heap','zero',const=False); epi=vm.new(st,'epi',L['MSG_data'][0],'heap','zero',const=False)
        tr=vm.new(st,'trailer',L['MSG_data_level_15_trailer'][0],'heap',z3.Array('epilogue',z3.BitVecSort(64),z3.BitVecSort(8))); hasepi=z3.Bool('has_epilogue'); do={l[3]:l[1] for l in L['MSG_data'][1]}
        cov={n:bv(vm.read(st,tr,off('MSG_data_level_15_trailer','product_stats.ActualL15CoverageHRV.'+n),4),32) for n in COV}
        def one(vm_,st_,p):
            r=vm_.resolve(st_,p)
            if len(r)!=1 or not isinstance(r[0][1],Ptr): raise Unsupported('conditional object')
            return r[0][1]
        def tag(vm_,st_,p):
            q=one(vm_,st_,p)
            if q.obj is S: raise Unsupported('a segment name is read')
            if q.obj is files:
                if not isinstance(q.off,int) or q.off%32 or not 0<=q.off//32<k: vm_.oblige(st_,FALSE,'only existing file names are used'); raise DeadPath()
                return('file',q.off//32)
            return dict(st_.ghost.get('tags',())).get((q.obj.id,q.off))
        def settag(vm_,st_,p,t):
            q=one(vm_,st_,p)
            if q.obj is S:
                vm_.oblige(st_,z3.ULT(bv(q.off,64),32*st_.ghost.get('size',z3.BitVecVal(0,64))),'the name of a segment is stored inside the list'); st_.ghost['stored']=st_.ghost.get('stored',())+((norm(z3.simplify(z3.LShR(bv(q.off,64),5))),t),); return
            d=dict(st_.ghost.get('tags',())); d[(q.obj.id,q.off)]=t; st_.ghost['tags']=tuple(d.items())
        def copy(vm_,st_,a,I): settag(vm_,st_,a[0],tag(vm_,st_,a[1])); return a[0]
        def resize(vm_,st_,a,I):
            q=one(vm_,st_,a[0])
            if q.obj is not this: return NotImplemented
            n=bv(a[1],64); vm_.oblige(st_,z3.ULE(n,1<<20),'the list grows to a sensible size'); st_.ghost['size']=n; vm_.write(st_,this,o+8,8,Ptr(S,norm(z3.simplify(32*n)))); return None
        def named(t):
            def f(vm_,st_,a,I):
                e=st_.fork(); settag(vm_,st_,a[0],(t,)); return [Outcome('ret',st_,None),bad(vm_,e)]
            return f
        def bad(vm_,e): e.ghost['failed']=True; return models.throw(vm_,e,'_ZTISt13runtime_error')
        def segfiles(vm_,st_,a,I):
            e=st_.fork(); q=one(vm_,st_,a[0])
            for d_,v in((0,0),(8,32*k),(16,32*k)): vm_.write(st_,q.obj,q.off+d_,8,Ptr(files,v))
            return [Outcome('ret',st_,None),bad(vm_,e)]
        def rd(vm_,st_,a,I):
            t=tag(vm_,st_,a[1]); e=st_.fork(); h=one(vm_,st_,a[2])
            if t is None: raise Unsupported('a file of unknown name is read')
            st_.ghost['read']=st_.ghost.get('read',())+(t,)
            if t[0]=='file':
                if h.obj is hd: st_.ghost['last']=t[1]
                for m in SUB: vm_.write(st_,h.obj,h.off+ho[m],8,vite_ptr(vm_,has[t[1]][m],Ptr(subs[t[1]][m],0)))
            if len(a)>3 and t[0]=='epi':
                d=one(vm_,st_,a[3]); vm_.oblige(st_,d.obj is epi and d.off==0,'the epilogue file is read into the epilogue'); vm_.write(st_,epi,do['epilogue'],8,vite_ptr(vm_,hasepi,Ptr(tr,0)))
            if len(a)>3 and t[0]=='pro': d=one(vm_,st_,a[3]); vm_.oblige(st_,d.obj is pro and d.off==0,'the prologue file is read into the prologue')
            return [Outcome('ret',st_,None),bad(vm_,e)]
        for nm,d in prog.dem.items():
            m=re.match(STR+r'(.*)$',d)
            if m:
                q=m.group(1)
                if re.match(r'basic_string\((std::(__cxx11::)?basic_string<char.*>) ?(const&|&&)\)',q) or re.match(r'(operator=|assign)\((std::(__cxx11::)?basic_string<char.*>) ?(const&|&&)\)',q): vm.contracts[nm]=copy
            elif re.match(r'std::vector<std::(__cxx11::)?basic_string<char.*>::resize\(unsigned long\)',d): vm.contracts[nm]=resize
            elif re.match(r'std::vector<std::(__cxx11::)?basic_string<char.*>::~vector\(\)',d): vm.contracts[nm]=lambda vm_,st_,a,I: None
            elif re.match(r'MSG_header::~?MSG_header\(\)',d): vm.contracts[nm]=lambda vm_,st_,a,I: None
            elif re.match(re.escape(CLS)+r'::read_file\(',d): vm.contracts[nm]=rd
            elif 'FileAccess::prologueFile' in d: vm.contracts[nm]=named('pro')
            elif 'FileAccess::epilogueFile' in d: vm.contracts[nm]=named('epi')
            elif 'FileAccess::segmentFiles' in d: vm.contracts[nm]=segfiles
        fa=vm.new(st,'fa',64,'heap',z3.Array('fa',z3.BitVecSort(64),z3.BitVecSort(8)))
        st.ghost['size']=z3.BitVecVal(0,64)
        for i in range(k): st.assume(z3.ULE(fld(i,'image_structure','number_of_columns',2),1<<15))
        for n in COV: st.assume(cov[n]>=0)
        if k: st.assume((fld(k-1,'segment_id','spectral_channel_id',1)==12) if hrv else (fld(k-1,'segment_id','spectral_channel_id',1)!=12))
        full=lambda i:z3.And(*(list(has[i].values())+[fld(i,'segment_id','data_field_format',4)!=0,fld(i,'image_structure','number_of_lines',2)!=0]))
        seq=lambda i:z3.ZeroExt(48,fld(i,'segment_id','sequence_number',2))
        okall=z3.And(*([full(i) for i in range(k)]+[z3.Or(*[seq(i)!=0 for i in range(k)])]+([hasepi] if hrv else [])))
        outs=vm.call_fn(prog.funcs[method(prog,'scan')[0]],[Ptr(this,0),Ptr(fa,0),Ptr(pro,0),Ptr(epi,0),Ptr(hd,0)],st)
        j=z3.BitVec('j',64); nret=0
        for q in outs:
            if q.kind=='throw':
                vm.oblige(q.st,str(q.val.tinfo).startswith('_ZTISt') if hasattr(q.val,'tinfo') else TRUE,'errors are reported as standard exceptions')
                if not q.st.ghost.get('failed'): vm.oblige(q.st,z3.Not(okall),'a set of files is refused only when it is incomplete')
        for q in (U.rets(vm,outs,allow=('ret','throw'),what='scan') if k else [q for q in outs if q.kind=='ret']):
            s=q.st; nret+=1
            if k==0: vm.oblige(s,FALSE,'a scan without segment files fails'); continue
            vm.oblige(s,okall,'a scan that succeeds has found complete headers'); vm.oblige(s,s.ghost.get('read',())==(('pro',),('epi',))+tuple(('file',i) for i in range(k)),'prologue, epilogue and every segment file are read')
            mx=z3.BitVecVal(0,64)
            for i in range(k): mx=z3.If(z3.UGT(seq(i),mx),seq(i),mx)
            vm.oblige(s,s.ghost['size']==mx,'the list of segments extends to the largest segment number')
            vm.oblige(s,norm(z3.simplify(bv(one(vm,s,vm.read(s,this,o+8,8)).off,64)-32*mx))==0 or bv(one(vm,s,vm.read(s,this,o+8,8)).off,64)==32*mx,'the list of segments is as long as that')
            def name_at(stored):
                r=z3.BitVecVal(99,8)
                for ix,t in stored: r=z3.If(bv(ix,64)==j,z3.BitVecVal(t[1],8),r)
                return r
            want=z3.BitVecVal(99,8)
            for i in range(k): want=z3.If(seq(i)==j+1,z3.BitVecVal(i,8),want)
            x=s.fork(); x.assume(z3.ULT(j,mx)); vm.oblige(x,name_at(s.ghost.get('stored',()))==want,'segment number s is the file whose header says s+1 (or is missing)')
            i=k-1; nl=z3.ZeroExt(48,fld(i,'image_structure','number_of_lines',2)); nc=z3.ZeroExt(48,fld(i,'image_structure','number_of_columns',2))
            w=dict(seglines=nl,columns=nc,lines=nl*z3.ZeroExt(48,fld(i,'segment_id','planned_end_segment_sequence_number',2)))
            if hrv:
                w.update({n:z3.ZeroExt(32,cov[n]) for n in COV}); a,b=w['LowerNorthLineActual'],w['UpperNorthLineActual']; w['MaxLineActual']=z3.If(z3.ULT(a,b),b,a)
            else: w.update(WestColumnActual=z3.BitVecVal(1,64),SouthLineActual=z3.BitVecVal(1,64))
            for n,v in w.items(): vm.oblige(s,bv(vm.read(s,this,off(CLS,n),8),64)==v,'%s after a scan'%n)
            vm.oblige(s,bv(vm.read(s,this,off(CLS,'hrv'),1),8)==int(hrv),'hrv after a scan'); vm.oblige(s,bv(vm.read(s,this,off(CLS,'swapX'),1),8)==z3.If(fld(i,'image_navigation','column_scaling_factor',4)<0,z3.BitVecVal(1,8),z3.BitVecVal(0,8)),'swapX after a scan')
    return fn
SUB=dict(segment_id='MSG_header_segment_id',image_structure='MSG_header_image_struct',image_navigation='MSG_header_image_navig')
def vite_ptr(vm,c,p):
    from sym import NULL,vite
    return vite(c,p,NULL,8)
# ---------------------------------------------------------------- concrete side: real files in a scratch directory
import os, glob, shutil, struct
def primary(ft,hlen,dlen): return b'\0\0\x10'+bytes([ft])+hlen.to_bytes(4,'big')+(8*dlen).to_bytes(8,'big')
def segment_file(seq,cols,lines,ch,end,csf,samples,fmt=2,lsf=-13642337,drop=()):
    h=b''
    if 1 not in drop: h+=b'\1\0\x09\x10'+struct.pack('>HHB',cols,lines,0)
    if 2 not in drop: h+=b'\2\0\x33'+b'GEOS(+000.0)'.ljust(32)+struct.pack('>iiii',csf,lsf,1856,1856)
    if 128 not in drop: h+=b'\x80\0\x0d'+struct.pack('>HBHHHB',321,ch,seq,1,end,fmt)
    d=struct.pack('<%dH'%len(samples),*samples)
    return primary(0,16+len(h),len(d))+h+d
class Scene:
    """one image: files on disk, and what the documentation says reading it gives"""
    def __init__(s,root,rnd,i,**k):
        s.dir=os.path.join(root,'scene%d'%i); os.mkdir(s.dir); s.rnd=rnd
        s.hrv=k.get('hrv',rnd.random()<.5); s.cols=k.get('cols',rnd.choice([1,2,3,7,16,33])); s.nseg=k.get('nseg',rnd.choice([1,2,3,4,8,9,24]))
        s.total=11136 if s.hrv else 3712
        s.lines=k.get('lines',rnd.choice([1,5,464,100,rnd.randint(1,600),-(-s.total//s.nseg)])); s.swap=k.get('swap',rnd.random()<.5)
        s.present=k.get('present',sorted(rnd.sample(range(1,s.nseg+1),rnd.randint(1,s.nseg)))); s.drop=k.get('drop',())
        a=rnd.randint(1,3000); b=a+rnd.randint(0,8000); c=b+rnd.randint(1,50); d=max(c,rnd.randint(b+1,11136))
        s.cov=k.get('cov',rnd.choice([(1,8128,1,5568,8129,11136,2064,7631),(a,b,rnd.randint(1,5000),rnd.randint(5568,11136),c,d,rnd.randint(1,5000),rnd.randint(5568,11136)),(a,b,1,rnd.randint(1,11136),0,0,0,0),(5,5,1,3000,6,6,7,4000)]))
        s.sat='MSG%d'%rnd.randint(1,4); s.chan='HRV' if s.hrv else 'IR_108'; s.time='200611141200'; d0=os.path.join(build.REPO,'tests/data')
        pad=lambda x,n:x.ljust(n,'_'); s.files={}
        for t in('PRO','EPI'):
            src=os.path.join(d0,'H-000-MSG1__-MSG1________-_________-%s______-200611141200-__'%t); b=bytearray(open(src,'rb').read())
            if t=='EPI':
                o=int.from_bytes(b[4:8],'big')+1+308; b[o:o+32]=struct.pack('>8I',*s.cov)
            open(os.path.join(s.dir,'H-000-MSG1__-%s-_________-%s______-%s-__'%(pad(s.sat,12),t,s.time)),'wb').write(b)
        for q in s.present:
            f=os.path.join(s.dir,'H-000-MSG1__-%s-%s-%06d___-%s-C_'%(pad(s.sat,12),pad(s.chan,9),q,s.time)); s.files[q-1]=f
            open(f,'wb').write(segment_file(q,s.cols,s.lines,12 if s.hrv else 9,s.nseg,-1000 if s.swap else 1000,[s.sample(q-1,r,c) for r in range(s.lines) for c in range(s.cols)],drop=s.drop if q==s.present[-1] else ()))
        s.name='%s/H:%s:%s:%s'%(s.dir,s.sat,s.chan,s.time)
    def sample(s,seg,row,col): return (seg*7919+row*271+col*31+1+(row>>5)*5)&0x3ff|((seg&7)<<10)
    def head(s): return 'EXC' if s.drop else 'seglines=%d columns=%d lines=%d hrv=%d swapX=%d'%(s.lines,s.cols,s.lines*s.nseg,s.hrv,s.swap)
    def maxline(s): return max(s.cov[1],s.cov[5])
    def start(s,L):
        if not s.hrv or L>=s.maxline(): return 0
        l=s.maxline()-L
        if s.cov[0]<=l<=s.cov[1]: return 11136-s.cov[3]
        if s.cov[4]<=l<=s.cov[5]: return 11136-s.cov[7]
        return 0
    def line(s,L,away=()):
        row=(s.maxline() if s.hrv else 3712)-1-L; v=[0]*s.cols
        if row>=0 and row//s.lines in s.files:
            if row//s.lines in away: return None
            v=[s.sample(row//s.lines,row%s.lines,c) for c in range(s.cols)]
            if s.swap: v.reverse()
        return v
    def ask(s,n=25,away=True):
        """a sequence of requests and the expected answers (a list of alternatives each)"""
        ops=[]; want=[]; gone=set(); rnd=s.rnd; loaded=[]
        def mod(v):
            h=0
            for x in v: h=(h*1000003+x+1)%(1<<64)
            return str(h)
        for _ in range(n):
            k=rnd.random(); top=s.maxline() if s.hrv else 3712
            if k<.4:
                L=rnd.choice([0,top-1,top,top-s.lines,top-s.lines-1,top-2*s.lines,rnd.randint(0,top+10),rnd.randint(max(0,top-s.lines*s.nseg),top)]); L=max(L,0)
                v=s.line(L); w=[mod(v)]; row=top-1-L
                if row>=0 and row//s.lines in gone: w.append('EXC')
                ops.append('L%d'%L); want.append(w)
            elif k<.6: L=rnd.choice([0,rnd.randint(0,11140),s.maxline()-s.cov[0],s.maxline()-s.cov[1],max(0,s.maxline()-s.cov[4]),s.maxline()-s.cov[0]+1,max(0,s.maxline()-s.cov[1]-1),s.maxline()]); L=max(L,0); ops.append('T%d'%L); want.append([str(s.start(L))])
            elif k<.9 or not away:
                i=rnd.choice(list(s.files)+[s.nseg,s.nseg+7,rnd.randint(0,s.nseg)]); ops.append('S%d'%i)
                if i in s.files:
                    f=[s.sample(i,r,c) for r in range(s.lines if s.lines*s.cols<3 else 2) for c in range(s.cols)][:2]
                    w=['%d,%d'%tuple(f)] if len(f)==2 else None
                    if i in gone and w: w.append('EXC')
                else: w=['none']
                want.append(w)
            else:
                i=rnd.choice(list(s.files))
                if i in gone: gone.discard(i); ops.append('U'+s.files[i])
                else: gone.add(i); ops.append('M'+s.files[i])
        for i in gone: ops.append('U'+s.files[i])
        return ops,want
def agree(s,out,want):
    r=out.split(';')
    if r[0]!=s.head(): return 'scan: expected %s'%s.head()
    if s.drop: return None
    if len(r)!=len(want)+1: return 'expected %d answers'%len(want)
    for i,(g,w) in enumerate(zip(r[1:],want)):
        if w is not None and g not in w: return 'request %d: got %s, expected %s'%(i+1,g,' or '.join(w))
    return None
def scenes(C,exe,n,what,**k):
    root=os.path.join(build.workdir(),'scenes'); os.makedirs(root,exist_ok=True); S=[]; lines=[]
    fixed=[dict(hrv=True,swap=True),dict(hrv=True,swap=False),dict(hrv=False,swap=True,nseg=8,lines=464,present=list(range(1,9))),dict(hrv=False,swap=False,nseg=8,lines=464,present=list(range(1,9))),dict(hrv=True,nseg=24,lines=464,cols=3,cov=(1,8128,1,5568,8129,11136,2064,7631)),dict(drop=(1,)),dict(drop=(2,)),dict(drop=(128,)),dict(hrv=False,nseg=1,lines=3712,cols=5)]
    for i in range(n):
        a=dict(fixed[i]) if i<len(fixed) else {}; a.update(k); s=Scene(root,C.rnd,i,**a)
        if s.lines*s.cols==1: shutil.rmtree(s.dir); continue
        for _ in range(3): o,w=s.ask(); S.append((s,o,w)); lines.append(';'.join([s.name]+o))
    for (s,o,w),g in zip(S,C.run_cases(exe,lines)):
        bad=agree(s,g,w); C.expect(what,'%s segments of %d lines x %d, present %s, mirrored %s, hrv %s %s, requests %s'%(s.nseg,s.lines,s.cols,s.present,s.swap,s.hrv,s.cov,' '.join(x.replace(s.dir,'') for x in o)),g.replace(s.dir,''),bad or 'as documented',ok=not bad)
    shutil.rmtree(root,ignore_errors=True)
def harness(C):
    from common import H
    from C02 import SRCS
    return C.native('data',[H('data.cpp'),SRC,'msat/xrit/fileaccess.cpp']+SRCS(),extra=('-fno-strict-aliasing','-fno-sanitize=enum,bool'),libs=('-Wl,--wrap=_ZN8MSG_dataC1Ev','-Wl,--wrap=_ZN8MSG_dataD1Ev','-Wl,--wrap=glob64','-Wl,--wrap=glob','-ldl'))
