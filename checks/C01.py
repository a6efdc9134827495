from common import *
import records
from reclib import RECS, members, locate, gen, cmpmem
CLASSES=['SatelliteStatus','ImageAcquisition','CelestialEvents','ImageDescription','RadiometricProc','GeometricProc','IMPFConfiguration','ImageProdStats','NavigExtrResult','RadiometricQuality','GeometricQuality','TimelinComple']
PRO=['SatelliteStatus','ImageAcquisition','CelestialEvents','ImageDescription','RadiometricProc','GeometricProc']
EPI=['ImageProdStats','NavigExtrResult','RadiometricQuality','GeometricQuality','TimelinComple']
HDR=''.join('#include <msat/hrit/MSG_data_%s.h>\n'%c for c in CLASSES+['SGS_header'])+''.join('static int z%d=sizeof(MSG_data_%s);\n'%(i,c) for i,c in enumerate(CLASSES))+'static int zs=sizeof(MSG_SGSCommonHeader);\n'
def unit_record(cls,lay,C):
    rec=RECS[cls]; L=rec['length']
    def fn(U):
        import z3, contracts
        from sym import State,Ptr,bv,fp_bits,UNDEF,FALSE
        src='msat/hrit/%s.cpp'%(cls if cls.startswith('MSG_data') else 'MSG_data_SGS_header')
        prog=U.prog([build.emit_ir(src),build.emit_ir('msat/hrit/MSG_machine.cpp'),build.emit_ir('msat/hrit/MSG_time_cds.cpp')])
        fs=prog.find(cls+'::read_from(')
        if not fs: U.notes.append('no '+cls+'::read_from'); return
        vm=U.vm(prog); contracts.machine(vm,prog); vm.globals_initial=True
        st=State(); arr=z3.Array('rec',z3.BitVecSort(64),z3.BitVecSort(8)); b=vm.buf(st,'record',L,arr=arr)
        sz=layout.sizeof(lay,cls); this=vm.new(st,'this',sz,'heap',z3.Array('old',z3.BitVecSort(64),z3.BitVecSort(8)))
        rnd=random.Random(7)
        U.on_model=lambda ev,o:(cls,model_bytes(ev,o,arr,L,rnd))
        outs=U.rets(vm,vm.call_fn(prog.funcs[fs[0]],[Ptr(this,0),Ptr(b,0)],st),what=cls+'::read_from')
        mem=members(lay,cls)
        for o in outs:
            st2=o.st
            if U.equal(vm,st2,o.val,L,'%s::read_from returns the documented record length %d'%(cls,L),64): U.ok(cls+'::read_from returns %d'%L)
            same_={}; missing=set()
            for path,ix,kind,fo in records.expand(rec):
                loc=locate(mem,path,ix)
                if loc is None: missing.add(path); continue
                off,n=loc
                got=vm.read(st2,this,off,n)
                if got is UNDEF:
                    vm.oblige(st2,FALSE,'%s.%s%s is set'%(cls,path,list(ix))); continue
                want,hyp=records.symbolic(vm,arr,kind,fo,ix,n)
                nm='%s.%s%s holds the value encoded at offset %d'%(cls,path,list(ix) if ix else '',fo)
                if isinstance(want,tuple):
                    if U.equal(vm,st2,z3.Extract(11,0,bv(got,8*n)),want[2],nm,12): same_[path]=same_.get(path,0)+1
                    continue
                if hyp is not None:
                    s2=st2.fork(); s2.assume(hyp); 
                    if U.equal(vm,s2,got,want,nm,8*n): same_[path]=same_.get(path,0)+1
                elif U.equal(vm,st2,got,want,nm,8*n): same_[path]=same_.get(path,0)+1
            for p,k in same_.items(): U.ok('%s.%s'%(cls,p),k)
            for p in missing: U.notes.append('%s.%s has no counterpart member in this tree'%(cls,p))
    return fn
def unit_data(which):
    """MSG_data::read_from hands consecutive record lengths to the record decoders, in the documented order"""
    names=PRO if which=='prologue' else EPI; start=0 if which=='prologue' else 1
    total=start+sum(RECS['MSG_data_'+c]['length'] for c in names)
    def fn(U):
        import z3, re, contracts
        from sym import State,Ptr,bv,FALSE,Outcome,as_ptr,fname
        prog=U.prog([build.emit_ir('msat/hrit/MSG_data.cpp',('-include',build.VERIF+'/include/inline_string.h')) , build.emit_ir('msat/hrit/MSG_machine.cpp')])
        vm=U.vm(prog); st=State()
        f=prog.find('MSG_data::read_from(')
        if not f: U.notes.append('no MSG_data::read_from'); return
        lay=layout.dump('#include <msat/hrit/MSG_data.h>\nstatic int a=sizeof(MSG_data)+sizeof(MSG_header)+sizeof(MSG_data_level_15_header)+sizeof(MSG_data_level_15_trailer)+sizeof(MSG_header_annotation);')
        md=members(lay,'MSG_data'); mh=members(lay,'MSG_header')
        lev='MSG_data_level_15_header' if which=='prologue' else 'MSG_data_level_15_trailer'
        subs={}
        for ind,off,ty,name,agg,isb,path in lay[lev][1]:
            if ind==1: subs[off]=ty
        file_arr=z3.Array('file',z3.BitVecSort(64),z3.BitVecSort(8))
        this=vm.new(st,'this',layout.sizeof(lay,'MSG_data'),'heap','zero')
        hdr=vm.new(st,'header',layout.sizeof(lay,'MSG_header'),'heap',z3.Array('hdr',z3.BitVecSort(64),z3.BitVecSort(8)),const=True)
        st.mem[hdr.id].base='zero'
        ann=vm.new(st,'annotation',layout.sizeof(lay,'MSG_header_annotation'),'heap',None)
        tc={'prologue':128,'epilogue':129}[which]
        c=st.wr(hdr)
        vm.write(st,hdr,mh['f_typecode'][0],4,tc); vm.write(st,hdr,mh['annotation'][0],8,Ptr(ann,0))
        vm.write(st,hdr,mh['data_field_length'][0],mh['data_field_length'][1],total*8)
        log=[]; calls=[]
        # contracts of the record decoders
        for nm,d in prog.dem.items():
            m=re.match(r'(MSG_data_\w+)::read_from\(unsigned char const\*\)',d)
            if m and m.group(1) in RECS:
                def ct(vm_,st_,a,I,cls=m.group(1)):
                    L=RECS[cls]['length']; 
                    qs=vm_.resolve(st_,a[0]); ps=vm_.resolve(st_,a[1])
                    if len(qs)!=1 or len(ps)!=1: raise __import__('sym').Unsupported('conditional record pointers')
                    q,p=qs[0][1],ps[0][1]
                    vm_.chk(st_,True,p,L,'record %s'%cls); 
                    k='log'; st_.ghost[k]=st_.ghost.get(k,())+((cls,q.obj.id,q.off,p.obj,p.off),)
                    return L
                vm.contracts[nm]=ct
            if re.match(r'std::istream::read\(|std::basic_istream<.*>::read\(',d):
                def rd(vm_,st_,a,I):
                    q=vm_.resolve(st_,a[1])[0][1]
                    vm_.chk(st_,True,q,a[2],'istream::read')
                    vm_.addrange(st_,q.obj,q.off,a[2],lambda c_,s_,rel,m_: z3.Concat(*[z3.Select(file_arr,bv(rel,64)+i) for i in reversed(range(m_))]) if m_>1 else z3.Select(file_arr,bv(rel,64)),'file')
                    st_.ghost['dbuf']=q.obj.id
                    return a[0]
                vm.contracts[nm]=rd
            if re.match(r'std::(basic_ios<.*>|ios)::fail\(',d): vm.contracts[nm]=lambda vm_,st_,a,I: False
            if re.match(r'std::(__cxx11::)?basic_string<.*>::find\(char const\*, unsigned long\)|std::string::find\(char const\*',d):
                def find(vm_,st_,a,I):
                    import models
                    s=models.cstr_bytes(vm_,st_,a[1])
                    if s==b'MSG': return 0
                    return (1<<64)-1
                vm.contracts[nm]=find
            if re.match(r'MSG_data_(ImageProdStats|NavigExtrResult|SatelliteStatus|ImageAcquisition|CelestialEvents|ImageDescription|RadiometricProc|GeometricProc|RadiometricQuality|GeometricQuality|TimelinComple|IMPFConfiguration)::~?MSG_data_\w+\(\)',d): vm.contracts[nm]=lambda vm_,st_,a,I: None
        vm.assumptions.add('istream::read delivers the next bytes of the file; std::string::find as documented')
        outs=U.rets(vm,vm.call_fn(prog.funcs[f[0]],[Ptr(this,0),contracts.fake_stream(vm,st),Ptr(hdr,0)],st),what='MSG_data::read_from')
        for o in outs:
            lg=o.st.ghost.get('log',()); off=start; exp=[]
            for c_ in names: exp.append(('MSG_data_'+c_,off)); off+=RECS['MSG_data_'+c_]['length']
            got=[(c_,po if isinstance(po,int) else z3.simplify(po)) for c_,qi,qo,pb,po in lg]
            vm.oblige(o.st,got==exp,'%s: the records are decoded at their consecutive documented positions (%s)'%(which,got))
            vm.oblige(o.st,len({pb.id for _,_,_,pb,_ in lg})==1 and (not lg or lg[0][3].id==o.st.ghost.get('dbuf')),'%s: every record is decoded from the data field read from the file'%which)
            vm.oblige(o.st,[subs.get(qo) for _,_,qo,_,_ in lg]==[c_ for c_,_ in exp],'%s: each record goes to its own member'%which)
            p=vm.read(o.st,this,md[which][0],8)
            vm.oblige(o.st,isinstance(p,Ptr) and bool(lg) and p.obj.id==lg[0][1],'%s is stored'%which)
    return fn
def compare(C,cls,mem,sz,b,out,tag):
    rec=RECS[cls]
    if out=='SKIPPED': return
    f=out.split(' ')
    if out.startswith('CRASH') or out=='HANG' or len(f)!=2:
        C.expect(cls+'::read_from',tag+':'+b[:24].hex(),out,'a decoded record',key=cls+' crash'); return
    C.expect(cls+'::read_from returns the record length',tag,int(f[0]),rec['length'])
    o=bytes.fromhex(f[1]); bad=0; n=0
    cmpmem(C,cls,mem,b,o,tag)
def check():
    C=Check('C01')
    lay=layout.dump(HDR)
    all_=['MSG_data_'+c for c in CLASSES]+(['MSG_SGSCommonHeader'] if 'MSG_SGSCommonHeader' in RECS else [])
    for c in sorted(all_,key=lambda c:-RECS[c]['length']): C.unit(c+'::read_from',unit_record(c,lay,C))
    import contracts
    for n in contracts.ACC: C.unit('MSG_machine '+n,contracts.unit_accessor(n))
    C.unit('MSG_machine byte order flag',contracts.unit_endianess)
    build.emit_many(['msat/hrit/MSG_machine.cpp','msat/hrit/MSG_time_cds.cpp'])
    C.unit('MSG_data::read_from prologue',unit_data('prologue')); C.unit('MSG_data::read_from epilogue',unit_data('epilogue'))
    C.prove(os.environ.get("ONLY"))
    exe=C.native('rec',[H('rec.cpp')]+['msat/hrit/'+f for f in sorted(os.listdir(REPO+'/msat/hrit')) if f.endswith('.cpp') and f.startswith('MSG_') and f not in('MSG_data_image.cpp','MSG_HRIT.cpp')]+['msat/facts.cpp']+[H('stub_image.cpp')],extra=('-fno-lifetime-dse','-fno-strict-aliasing','-fno-sanitize=enum,bool'))
    cases=[]; rnd=C.rnd
    modes=['count','random','small','ff']+['random']*(2 if C.quick else 12)
    for c in all_:
        for m in (modes if RECS[c]['length']<100000 else modes[:2] if C.quick else modes[:6]): cases.append((c,gen(rnd,c,m),m))
    outs=C.run_cases(exe,['%s %s'%(c,b.hex()) for c,b,m in cases])
    mems={c:members(lay,c) for c in all_}
    for (c,b,m),o in zip(cases,outs): compare(C,c,mems[c],layout.sizeof(lay,c),b,o,m)
    # whole data fields
    for rep in range(1 if C.quick else 4):
        for tc,names,st,letter in((128,PRO,0,'P'),(129,EPI,1,'E')):
            parts=[gen(rnd,'MSG_data_'+n,'random') for n in names]; d=b'\x01'*st+b''.join(parts)
            o=C.run_cases(exe,['file %d MSG2 %s'%(tc,d.hex())])[0].split(' ')
            if not C.expect('data field of type %d'%tc,'random records',(o[0],len(o)) if o else '',(letter,len(names)+1)): continue
            for n,p,h in zip(names,parts,o[1:]): cmpmem(C,'MSG_data_'+n,mems['MSG_data_'+n],p,bytes.fromhex(h),'in a whole data field')
    def replay(case,r):
        cls,b=case; o=C.run_cases(exe,['%s %s'%(cls,b.hex())])[0]; compare(C,cls,mems[cls],0,b,o,'counterexample of '+r['name'])
    return C.finish(replayer=replay,rule='one decoded record (all of its members compared) per evaluation; distinct by record class and content')
main(check)
