"""xRIT header records: documented layouts (symbolic + concrete oracle) and proof units (C02, C03)."""
import re, os, build, layout, records, contracts, struct
from records import be
EXT=('-include',build.VERIF+'/include/inline_string.h')
INC=''.join('#include <msat/hrit/%s.h>\n'%h for h in('MSG_header',))+''.join('static int z%d=sizeof(%s);\n'%(i,c) for i,c in enumerate(['MSG_header','MSG_header_image_struct','MSG_header_image_navig','MSG_header_image_datafunc','MSG_header_annotation','MSG_header_timestamp','MSG_header_ancillary_text','MSG_header_key','MSG_header_segment_id','MSG_segment_quality','MSG_header_segment_quality']))
# class -> type code, length (None: from the record), member of MSG_header
REC={'MSG_header_image_struct':(1,9,'image_structure'),'MSG_header_image_navig':(2,51,'image_navigation'),'MSG_header_image_datafunc':(3,None,'image_data_function'),
 'MSG_header_annotation':(4,64,'annotation'),'MSG_header_timestamp':(5,10,'timestamp'),'MSG_header_ancillary_text':(6,None,'ancillary_text'),'MSG_header_key':(7,12,'key'),
 'MSG_header_segment_id':(128,13,'segment_id'),'MSG_header_segment_quality':(129,None,'segment_quality')}
FIX={'MSG_header_image_struct':[('number_of_bits_per_pixel','u1',3),('number_of_columns','u2',4),('number_of_lines','u2',6),('compression_flag','u1',8)],
 'MSG_header_image_navig':[('column_scaling_factor','i4',35),('CFAC','i4',35),('line_scaling_factor','i4',39),('LFAC','i4',39),('column_offset','i4',43),('COFF','i4',43),('line_offset','i4',47),('LOFF','i4',47)],
 'MSG_header_timestamp':[('day_from_epoch','u2',4),('msec_in_day','u4',6),('unixtime','unix',4),('usecs','usecs',6)],
 'MSG_header_key':[('key_number','u1',3),('seed','u8',4)],
 'MSG_header_segment_id':[('spacecraft_id','u2',3),('spectral_channel_id','u1',5),('sequence_number','u2',6),('planned_start_segment_sequence_number','u2',8),('planned_end_segment_sequence_number','u2',10),('data_field_format','u1',12)],
 'MSG_segment_quality':[('line_number_in_grid','i4',0),('line_mean_acquisition.day_from_epoch','u2',4),('line_mean_acquisition.msec_in_day','u4',6),('line_mean_acquisition.unixtime','unix',4),('line_mean_acquisition.usecs','usecs',6),('line_validity','u1',10),('line_radiometric_quality','u1',11),('line_geometric_quality','u1',12)]}
SRC={'MSG_segment_quality':'MSG_header_segment_quality'}
_lay=[]
def lay():
    if not _lay: _lay.append(layout.dump(INC))
    return _lay[0]
def members(cls): return {p:(o,n,d) for p,o,n,t,d in layout.flatten(lay(),cls)}
def member(cls,path):
    m=members(cls)
    if path in m: return m[path][:2]
    c=[v for p,v in m.items() if p.split('.')[-1]==path]   # members inherited from a base class
    return c[0][:2] if len(c)==1 else None
def src(cls): return 'msat/hrit/%s.cpp'%SRC.get(cls,cls)
BASE=['msat/hrit/MSG_machine.cpp','msat/hrit/MSG_time_cds.cpp']
def start(U,cls,extra=()):
    prog=U.prog([build.emit_ir(src(cls),EXT)]+[build.emit_ir(b) for b in BASE])
    vm=U.vm(prog); contracts.machine(vm,prog); return prog,vm
def unit_fixed(cls,meth='read_from'):
    L=REC[cls][1] if cls in REC else 13
    def fn(U):
        import z3, random
        from sym import State,Ptr,UNDEF,FALSE,bv,norm
        from common import model_bytes
        prog,vm=start(U,cls); fs=prog.find('%s::%s('%(cls,meth))
        if not fs: U.notes.append('no %s::%s'%(cls,meth)); return
        st=State(); arr=z3.Array('rec',z3.BitVecSort(64),z3.BitVecSort(8)); b=vm.buf(st,'record',L,arr=arr)
        sz=lay()[cls][0]; this=vm.new(st,'this',sz,'heap',z3.Array('old',z3.BitVecSort(64),z3.BitVecSort(8)))
        rnd=random.Random(3); U.on_model=lambda ev,o:(cls,model_bytes(ev,o,arr,L,rnd))
        for o in U.rets(vm,vm.call_fn(prog.funcs[fs[0]],[Ptr(this,0),Ptr(b,0)],st),what=cls+'::'+meth):
            for path,kind,off in FIX[cls]:
                loc=member(cls,path)
                if loc is None: U.notes.append('%s.%s has no counterpart member in this tree'%(cls,path)); continue
                got=vm.read(o.st,this,loc[0],loc[1])
                if got is UNDEF: vm.oblige(o.st,FALSE,'%s.%s is set'%(cls,path)); continue
                want,_=records.symbolic(vm,arr,kind,off,(),loc[1])
                if U.equal(vm,o.st,got,want,'%s.%s holds the value encoded at offset %d'%(cls,path,off),8*loc[1]): U.ok('%s.%s'%(cls,path))
            if cls=='MSG_header_image_struct':
                S=lambda i:z3.Select(arr,z3.BitVecVal(i,64)); E16=lambda i:z3.ZeroExt(48,z3.Concat(S(i),S(i+1)))
                px=E16(4)*E16(6); bits=px*z3.ZeroExt(56,S(3))
                for path,want in(('image_pixels',px),('image_size',z3.LShR(bits+7,3))):
                    loc=member(cls,path)
                    if loc is None: continue
                    vm.oblige(o.st,bv(vm.read(o.st,this,loc[0],loc[1]),64)==want,'image_struct.%s'%path)
    return fn
# ------------------------------------------------------------------ std::string at the level of its interface
def str_contracts(vm,prog,log):
    """assignment of a C string to a std::string member is recorded: (destination, source)"""
    for nm,d in prog.dem.items():
        if re.match(r'std::(__cxx11::)?basic_string<char.*>::(operator=|assign)\(char const\*\)$',d):
            def asg(vm_,st_,a,I):
                q=vm_.resolve(st_,a[1])[0][1]
                st_.ghost['assign']=st_.ghost.get('assign',())+((a[0],q,vm_.content(st_,q.obj)),)
                return a[0]
            vm.contracts[nm]=asg
    vm.assumptions.add('std::string assignment from a C string copies its characters up to the NUL')
def unit_text(cls):
    """records with a text of the declared length"""
    def fn(U):
        import z3
        from sym import State,Ptr,FALSE,bv,norm,Content,Cells
        prog,vm=start(U,cls); fs=prog.find(cls+'::read_from(')
        if not fs: return
        st=State(); arr=z3.Array('rec',z3.BitVecSort(64),z3.BitVecSort(8))
        S=lambda i: z3.Select(arr,bv(i,64))
        L=z3.ZeroExt(48,z3.Concat(S(1),S(2))); b=vm.buf(st,'record',L,arr=arr); st.assume(z3.UGE(L,3))
        this=vm.new(st,'this',lay()[cls][0],'heap','zero'); str_contracts(vm,prog,None)
        outs=vm.call_fn(prog.funcs[fs[0]],[Ptr(this,0),Ptr(b,0)],st)
        for o in outs:
            if o.kind=='throw':
                vm.oblige(o.st,str(o.val.tinfo).startswith('_ZTISt'),'%s refuses a record with a standard exception'%cls)
                if cls=='MSG_header_ancillary_text': vm.oblige(o.st,z3.ULE(L,3),'%s is refused only when it has no text'%cls)
                else: vm.oblige(o.st,FALSE,'%s is never refused when its length is valid'%cls)
        rets=[o for o in outs if o.kind=='ret']; U.rets(vm,outs,allow=('ret','throw'),what=cls)
        i=z3.BitVec('i',64)
        for o in rets:
            if cls=='MSG_header_ancillary_text':
                off,n=member(cls,'ancillary_text'); p=vm.read(o.st,this,off,n); obj,po=p.obj,p.off; cont=vm.content(o.st,obj)
            else:
                asg=o.st.ghost.get('assign',())
                off,n=member(cls,'data_definition_block') or (None,None)
                good=[x for x in asg]
                vm.oblige(o.st,len(asg)==1 and asg[0][0].obj is this,'%s stores its text in the member'%cls)
                if len(asg)!=1: continue
                obj,po,cont=asg[0][1].obj,asg[0][1].off,asg[0][2]
            s2=o.st.fork(); s2.freed=frozenset(); s2.assume(z3.ULT(i,L-3))
            vm.oblige(s2,bv(vm._read(s2,cont,len(cont.layers)-1,norm(z3.simplify(i+bv(po,64))),1,obj),8)==S(i+3),'%s: character i of the text is byte 3+i of the record'%cls)
            vm.oblige(o.st,bv(vm._read(o.st,cont,len(cont.layers)-1,norm(z3.simplify(L-3+bv(po,64))),1,obj),8)==0,'%s: the text ends where the record ends'%cls)
    return fn
ANN=[('xrit_channel_id',0,1),('annotation_version',2,3),('disseminating_s_c',6,6),('product_id_1',13,12),('product_id_2',26,9),('product_id_3',36,9),('product_id_4',46,12),('flags',59,2)]
def unit_annotation(lengths=(61,)):
    """annotation record whose text has n characters before the first NUL (61: none): fields, or a standard exception when the text is too short"""
    def fn(U):
        for n in lengths: annotation_n(U,n)
    return fn
def annotation_n(U,N):
    import z3
    from sym import State,Ptr,FALSE,bv,norm,NULL
    cls='MSG_header_annotation'; prog,vm=start(U,cls); fs=prog.find(cls+'::read_from('); ct=prog.find('%s::%s()'%(cls,cls))
    if not fs or not ct: return
    st=State(); arr=z3.Array('rec',z3.BitVecSort(64),z3.BitVecSort(8)); b=vm.buf(st,'record',64,arr=arr)
    for i in range(N): st.assume(z3.Select(arr,z3.BitVecVal(3+i,64))!=0)
    if N<61: st.assume(z3.Select(arr,z3.BitVecVal(3+N,64))==0)
    this=vm.new(st,'this',lay()[cls][0],'heap',z3.Array('old',z3.BitVecSort(64),z3.BitVecSort(8)))
    def slen(v,s,q):
        if not(isinstance(q.obj.size,int) and isinstance(q.off,int)): return None
        for i in range(q.obj.size-q.off):
            x=v.read(s,q.obj,q.off+i,1)
            if v.must(s,bv(x,8)!=0): continue
            return i if v.must(s,bv(x,8)==0) else None
    vm.strlen_hook=slen
    m={l[3]:l[1] for l in lay()[cls][1] if l[0]==1}
    for nm in [x[0] for x in ANN]+['annotation']:
        if nm not in m: U.notes.append('%s.%s has no counterpart member'%(cls,nm))
    st0=[o for o in vm.call_fn(prog.funcs[ct[0]],[Ptr(this,0)],st) if o.kind=='ret']
    for o0 in st0:
        outs=vm.call_fn(prog.funcs[fs[0]],[Ptr(this,0),Ptr(b,0)],o0.st)
        for o in outs:
            if o.kind=='throw': vm.oblige(o.st,N<59 and str(o.val.tinfo).startswith('_ZTISt'),'annotation of %d characters is refused only when shorter than its fields, with a standard exception'%N)
        rets=U.rets(vm,outs,allow=('ret','throw'),what='%s::read_from of %d characters'%(cls,N)) if N>=59 else [o for o in outs if o.kind=='ret']
        for o in outs:
            if o.kind not in('ret','throw'): vm.oblige(o.st,FALSE,'annotation of %d characters: no %s'%(N,o.kind))
        for o in rets:
            if N<59: vm.oblige(o.st,FALSE,'annotation of %d characters is refused'%N); continue
            for nm,off,n in [('annotation',0,N)]+ANN:
                if nm not in m: continue
                n=max(0,min(n,N-off)); p=vm.read(o.st,this,m[nm],8); ln=vm.read(o.st,this,m[nm]+8,8)
                vm.oblige(o.st,bv(ln,64)==n,'annotation.%s has %d characters'%(nm,n))
                if not(isinstance(p,Ptr) and p.obj is not None): vm.oblige(o.st,FALSE,'annotation.%s is set'%nm); continue
                for k in range(n):
                    if U.equal(vm,o.st,vm.read(o.st,p.obj,p.off+k,1),z3.Select(arr,z3.BitVecVal(3+off+k,64)),'annotation.%s[%d] is character %d of the annotation'%(nm,k,off+k),8): U.ok('annotation.%s[%d]'%(nm,k))
def cmask(bs,stops):
    """bytes up to the first NUL (or any of stops), the rest zeroed; one bit-vector"""
    import z3
    out=[]; ended=z3.BoolVal(False)
    for b in bs:
        ended=z3.Or(ended,b==0,*[b==c for c in stops]); out.append(z3.If(ended,z3.BitVecVal(0,8),b))
    return z3.Concat(*out)
def unit_projection(U):
    """projection name and its parameters: the text of the navigation record, nothing beyond its 32 characters"""
    import z3
    from sym import State,Ptr,FALSE,bv,norm,NULL,PtrIte,And,Not,F32,bits_fp,fp_bits,UNDEF,fname
    import models
    cls='MSG_header_image_navig'; prog,vm=start(U,cls); fs=prog.find(cls+'::read_from(')
    if not fs: return
    FL=z3.Function('atof',z3.BitVecSort(8*40),z3.BitVecSort(32))
    def scan(vm_,st,a,I):
        fmt=models.cstr_bytes(vm_,st,a[1])
        if fmt!=b'%f': return NotImplemented
        vm_.assumptions.add('sscanf("%f") stores a value that depends only on the characters up to the NUL')
        src=vm_.resolve(st,a[0]); assert len(src)==1; q=src[0][1]; n=q.obj.size-q.off if isinstance(q.off,int) else None
        all_=[bv(vm_.read(st,q.obj,k,1),8) for k in range(q.obj.size)]; bs=[]
        for k in range(40):
            if isinstance(q.off,int): bs.append(all_[q.off+k] if q.off+k<q.obj.size else z3.BitVecVal(0,8)); continue
            v=z3.BitVecVal(0,8)
            for j in range(q.obj.size): v=z3.If(bv(q.off,64)+k==j,all_[j],v)
            bs.append(v)
        # the string must end inside the object
        if isinstance(q.off,int): vm_.oblige(st,z3.Or(*[b==0 for b in bs[:q.obj.size-q.off]]),'the text given to sscanf ends inside the name','memsafe')
        else: vm_.oblige(st,z3.And(z3.ULT(bv(q.off,64),q.obj.size),z3.Or(*[z3.And(z3.ULE(bv(q.off,64),k),all_[k]==0) for k in range(q.obj.size)])),'the text given to sscanf ends inside the name','memsafe')
        d=vm_.resolve(st,a[2])[0][1]; vm_.chk(st,True,d,4,'sscanf target'); vm_.write(st,d.obj,d.off,4,FL(cmask(bs,[]))); return 1
    def strchr(vm_,st,a,I):
        q=vm_.resolve(st,a[0]); assert len(q)==1; q=q[0][1]; c=a[1]&255
        n=q.obj.size-q.off; bs=[bv(vm_.read(st,q.obj,q.off+k,1),8) for k in range(n)]
        vm_.oblige(st,z3.Or(*[b==0 for b in bs]),'the text given to strchr ends inside the name','memsafe')
        pos=z3.BitVecVal(0,64); found=z3.BoolVal(False)
        for k in reversed(range(n)):
            pos=z3.If(bs[k]==c,z3.BitVecVal(q.off+k,64),z3.If(bs[k]==0,z3.BitVecVal(0,64),pos)); found=z3.If(bs[k]==c,z3.BoolVal(True),z3.If(bs[k]==0,z3.BoolVal(False),found))
        return PtrIte([(Not(found),NULL),(found,Ptr(q.obj,pos))])
    for n in('sscanf','__isoc23_sscanf','__isoc99_sscanf'): vm.models[n]=scan
    vm.models['strchr']=strchr; vm.assumptions.add('strchr as in ISO C')
    for nm,d in prog.dem.items():
        if re.match(r'std::(__cxx11::)?basic_string<char.*>::(operator=|assign)\(char const\*\)$',d):
            def asg(vm_,st_,a,I):
                q=vm_.resolve(st_,a[1])[0][1]; bs=[]
                if q.obj.size is not None: bs=[vm_.read(st_,q.obj,q.off+k,1) for k in range(min(40,q.obj.size-q.off))]
                st_.ghost['pname']=tuple(bs); return a[0]
            vm.contracts[nm]=asg
    st=State(); arr=z3.Array('rec',z3.BitVecSort(64),z3.BitVecSort(8)); b=vm.buf(st,'record',51,arr=arr)
    S=lambda i: z3.Select(arr,z3.BitVecVal(i,64)); N=[S(3+k) for k in range(32)]
    this=vm.new(st,'this',lay()[cls][0],'heap',z3.Array('old',z3.BitVecSort(64),z3.BitVecSort(8)))
    old=z3.Array('old',z3.BitVecSort(64),z3.BitVecSort(8))
    hk=vm.merge
    vm.merge=lambda arr_,ns: arr_ if False else hk(arr_,ns)
    outs=U.rets(vm,vm.call_fn(prog.funcs[fs[0]],[Ptr(this,0),Ptr(b,0)],st),what=cls+'::read_from')
    def pn(o): return o.st.ghost.get('pname')
    G=N[0]==ord('G'); PO=z3.And(N[0]==ord('P'),N[1]==ord('O'))
    Z=[z3.BitVecVal(0,8)]*8
    pad=lambda bs: bs+[z3.BitVecVal(0,8)]*(40-len(bs))
    def F(o,m):
        v=vm.read(o.st,this,*member(cls,m)); return bv(fp_bits(v,4) if isinstance(v,(float,z3.FPRef)) else v,32)
    OLD=lambda m: z3.Concat(*[z3.Select(old,z3.BitVecVal(member(cls,m)[0]+i,64)) for i in reversed(range(4))])
    PS=z3.And(N[0]==ord('P'),N[1]!=ord('O'),N[1]==ord('S')); ME=N[0]==ord('M')
    lit=lambda s_: cmask(pad([z3.BitVecVal(c,8) for c in s_]),[])
    comma=OLD('projection_longitude')
    for k in reversed(range(6,32)): # first comma before a NUL
        comma=z3.If(N[k]==ord(','),FL(cmask(pad(N[k+1:]),[])),z3.If(N[k]==0,OLD('projection_longitude'),comma))
    seen=set()
    for o in outs:
        for path,kind,off in FIX[cls]:
            loc=member(cls,path)
            if loc is None: continue
            want,_=records.symbolic(vm,arr,kind,off,(),loc[1])
            if U.equal(vm,o.st,vm.read(o.st,this,loc[0],loc[1]),want,'%s.%s holds the value encoded at offset %d'%(cls,path,off),8*loc[1]): U.ok('%s.%s'%(cls,path))
        for tag,cond,goals in(('GEOS',G,[('sub-satellite longitude is the number in parentheses',lambda:F(o,'subsatellite_longitude')==FL(cmask(pad(N[5:]),[ord(')')])))]),
            ('POLAR',PO,[('projection plane is the number after the parenthesis',lambda:F(o,'projection_plane')==FL(cmask(pad(N[6:]),[]))),('projection longitude is the number after the comma',lambda:F(o,'projection_longitude')==comma)]),('PSD',PS,[]),('MERCATOR',ME,[])):
            sg=o.st.fork(); sg.assume(cond)
            if not vm.feasible_pc(sg): continue
            seen.add(tag)
            for nm,g in goals:
                if 'comma' not in nm: vm.oblige(sg,g(),'%s: %s'%(tag,nm)); continue
                got=F(o,'projection_longitude')
                # one case per position of the first comma (fixed characters make the case small)
                for k in list(range(6,32))+[None]:
                    free=[z3.And(N[j]!=ord(','),N[j]!=0) for j in range(6,k if k is not None else 6)]
                    sk=sg.fork()
                    if k is not None:
                        for c in free: sk.assume(c)
                        sk.assume(N[k]==ord(','))
                    else:
                        # a NUL before any comma, or neither
                        sk.assume(z3.And(*[z3.Implies(N[j]==ord(','),z3.Or(*[N[q]==0 for q in range(6,j)])) for j in range(6,32)]))
                    want=FL(cmask(pad(N[k+1:]),[])) if k is not None else OLD('projection_longitude')
                    if not vm.feasible_pc(sk): continue
                    vm.oblige(sk,got==want,'%s: %s (%s)'%(tag,nm,'at %d'%k if k is not None else 'none'))
            p=pn(o); want={'GEOS':cmask(pad(N[:4]),[]),'POLAR':cmask(pad(N[:5]),[])}.get(tag); want=want if want is not None else lit(tag.encode())
            if p is None: vm.oblige(sg,FALSE,'%s: the projection name is set'%tag); continue
            vm.oblige(sg,cmask(pad([bv(x,8) for x in p]),[])==want,'%s: projection name'%tag)
    for tag in('GEOS','POLAR','PSD','MERCATOR'): U.result('%s is reachable'%tag,tag in seen,'cover')
def names_of(prog,cls,what):
    return [n for n,d in prog.dem.items() if re.match(r'%s::%s\('%(re.escape(cls),re.escape(what)),d)]
def unit_quality_loop(U):
    import z3
    from sym import State,Ptr,FALSE,bv,norm,And
    cls='MSG_header_segment_quality'; prog,vm=start(U,cls); fs=prog.find(cls+'::read_from(')
    if not fs: return
    st=State(); arr=z3.Array('rec',z3.BitVecSort(64),z3.BitVecSort(8)); nl=z3.BitVec('nlines',16); N=z3.ZeroExt(48,nl)
    b=vm.buf(st,'record',3+13*N,arr=arr); this=vm.new(st,'this',lay()[cls][0],'heap','zero'); esz=lay()['MSG_segment_quality'][0]
    cnt=vm.new(st,'ghost',8,'heap'); vm.write(st,cnt,0,8,0)
    for n in names_of(prog,'MSG_segment_quality','set'):
        def setc(vm_,st_,a,I):
            t=vm_.resolve(st_,a[0])[0][1]; p=vm_.resolve(st_,a[1])[0][1]
            vm_.chk(st_,True,t,esz,'quality entry'); vm_.chk(st_,True,p,13,'quality record')
            c=vm_.read(st_,cnt,0,8)
            # the entry array carries an 8-byte element count when the element type needs destruction
            base=t.obj.meta.setdefault('base',None)
            vm_.oblige(st_,z3.Or(*[bv(t.off,64)==bv(c,64)*esz+k for k in(0,8)]),'entry number k is stored at element k')
            vm_.oblige(st_,p.obj is b and True,'entries come from the record'); vm_.oblige(st_,bv(p.off,64)==bv(c,64)*13+3,'entry number k is decoded from byte 3+13*k of the record')
            vm_.write(st_,cnt,0,8,norm(z3.simplify(bv(c,64)+1))); return None
        vm.contracts[n]=setc
    for c in('MSG_segment_quality','MSG_time_cds_short'):
        for w in(c,'~'+c):
            for n in names_of(prog,c,w): vm.contracts[n]=lambda vm_,st_,a,I: None
    outs=U.rets(vm,vm.call_fn(prog.funcs[fs[0]],[Ptr(this,0),Ptr(b,0),nl],st),what=cls)
    for o in outs:
        vm.oblige(o.st,bv(vm.read(o.st,cnt,0,8),64)==N,'one quality entry is decoded for every line')
        off,n=member(cls,'nlines'); vm.oblige(o.st,bv(vm.read(o.st,this,off,n),32)==z3.ZeroExt(16,nl),'nlines is the number of lines')
# ------------------------------------------------------------------ the header walk
def unit_walk(U):
    import z3
    from sym import State,Ptr,FALSE,bv,norm,And,PtrIte,Outcome,Content,Cells,NULL,Not,vite
    from exec import DeadPath
    import models
    prog=U.prog([build.emit_ir('msat/hrit/MSG_header.cpp',EXT),build.emit_ir('msat/hrit/MSG_machine.cpp')])
    vm=U.vm(prog); contracts.machine(vm,prog); fs=prog.find('MSG_header::read_from(')
    if not fs: return
    st=State(); M={p:(o,n) for p,o,n,t,d in layout.flatten(lay(),'MSG_header')}
    file_arr=z3.Array('file',z3.BitVecSort(64),z3.BitVecSort(8))
    this=vm.new(st,'this',lay()['MSG_header'][0],'heap','zero')
    pos=vm.new(st,'position',8,'heap'); vm.write(st,pos,0,8,0)
    obj={c:lay()[c][0] for c in REC}
    # the nine members start as null or as a live object
    for c,(code,L,m) in REC.items():
        if m in M:
            old=vm.new(st,'old '+m,obj[c],'heap',z3.Array('old_'+m,z3.BitVecSort(64),z3.BitVecSort(8)),const=False); old.meta['cls']=c
            vm.write(st,this,M[m][0],8,vite(z3.Bool('had_'+m),Ptr(old,0),NULL,8))
    def sel(p): return z3.Select(file_arr,p)
    walk_buf=[]
    for nm,d in prog.dem.items():
        if re.match(r'std::istream::read\(|std::basic_istream<.*>::read\(',d):
            def rd(vm_,st_,a,I):
                q=vm_.resolve(st_,a[1])[0][1]; n=a[2]
                vm_.chk(st_,True,q,n,'istream::read'); fp=vm_.read(st_,pos,0,8)
                vm_.addrange(st_,q.obj,q.off,n,lambda c_,s_,rel,m_,fp=fp: (lambda l: z3.Concat(*l) if len(l)>1 else l[0])([z3.Select(file_arr,z3.simplify(bv(fp,64)+bv(rel,64)+i)) for i in reversed(range(m_))]),'file')
                vm_.write(st_,pos,0,8,norm(z3.simplify(bv(fp,64)+bv(n,64)))); return a[0]
            vm.contracts[nm]=rd
        if re.match(r'std::(basic_ios<.*>|ios)::(fail|operator!)\(',d): vm.contracts[nm]=lambda vm_,st_,a,I: z3.Bool('fail!%d'%id(st_))
    vm.assumptions.add('istream::read delivers the next bytes of the file or sets the fail state')
    for c,(code,L,m) in REC.items():
        for n in names_of(prog,c,c):
            def ctor(vm_,st_,a,I,c=c):
                q=vm_.resolve(st_,a[0])[0][1]; q.obj.name=c; q.obj.meta['cls']=c
                st_.mem[q.obj.id]=Content(z3.Array('obj_'+c,z3.BitVecSort(64),z3.BitVecSort(8)),None,st_.tok); return None
            vm.contracts[n]=ctor
        for n in names_of(prog,c,'~'+c): vm.contracts[n]=lambda vm_,st_,a,I: None
        for n in names_of(prog,c,'read_from'):
            def rf(vm_,st_,a,I,c=c,code=code,L=L):
                t=vm_.resolve(st_,a[0])[0][1]; p=vm_.resolve(st_,a[1])[0][1]
                vm_.chk(st_,True,t,obj[c],c)
                vm_.oblige(st_,t.obj.meta.get('cls')==c,'%s::read_from runs on a %s'%(c,c))
                rd=lambda k: bv(vm_.read(st_,p.obj,vm_.padd(p,k).off,1),8)
                vm_.chk(st_,True,p,3,c)
                vm_.oblige(st_,rd(0)==code,'a record decoded as %s has type code %d'%(c,code))
                ln=z3.ZeroExt(48,z3.Concat(rd(1),rd(2)))
                need=z3.BitVecVal(L,64) if L else ln
                if c=='MSG_header_segment_quality': need=3+13*z3.ZeroExt(48,bv(a[2],16))
                elif not L: vm_.oblige(st_,z3.UGE(ln,3),'precondition of %s: the declared length includes its own three bytes'%c)
                else: vm_.oblige(st_,ln==L,'a record decoded as %s has its documented length %d'%(c,L))
                if c=='MSG_header_segment_quality': vm_.oblige(st_,z3.ULE(need,ln),'the quality entries lie inside their record')
                vm_.chk(st_,True,p,norm(z3.simplify(ln)),'%s record'%c)
                st_.ghost['dec']=st_.ghost.get('dec',())+((c,t.obj.id,p.obj.id,p.off,a[2] if len(a)>2 else None),)
                st_.mem[t.obj.id]=Content(z3.Array('dec_%s_%d'%(c,len(st_.ghost['dec'])),z3.BitVecSort(64),z3.BitVecSort(8)),None,st_.tok)
                r=[Outcome('ret',st_,None)]
                if not L and c!='MSG_header_segment_quality':
                    s2=st_.fork(); s2.assume(z3.Bool('refuse_%s'%c)); r.append(models.throw(vm_,s2,'_ZTISt13runtime_error'))
                return r
            vm.contracts[n]=rf
    # every iteration decodes exactly one record, into the member of its type, and moves on by its declared length
    def back(vm_,fr,h,base,X,st_,nx):
        dec=st_.ghost.get('dec',())
        vm_.oblige(st_,len(dec)==1,'each step of the walk decodes exactly one record')
        for c,oid,pid,poff,extra in dec:
            code,L,m=REC[c]
            if m in M:
                p=vm_.read(st_,this,M[m][0],8); alts=p.alts if isinstance(p,PtrIte) else [(True,p)]
                for cc,q in alts: vm_.oblige(st_,(isinstance(q,Ptr) and q.obj is not None and q.obj.id==oid) or Not(cc) if cc is not True else (isinstance(q,Ptr) and q.obj is not None and q.obj.id==oid),'the decoded %s becomes header.%s'%(c,m))
            ptrs=[v for v in X.values() if isinstance(v.x,Ptr) and v.x.obj.id==pid]
            for v in ptrs:
                vm_.oblige(st_,bv(poff,64)==bv(v.x.off,64),'the record is decoded from the current position')
                b1,b2=[bv(vm_.read(base,v.x.obj,norm(z3.simplify(bv(v.x.off,64)+k)),1),8) for k in(1,2)]
                vm_.oblige(st_,bv(nx(v.key).off,64)==bv(v.x.off,64)+z3.ZeroExt(48,z3.Concat(b1,b2)),'the walk moves on by the declared length of the record')
            if c=='MSG_header_segment_quality':
                si=vm_.read(st_,this,M['image_structure'][0],8)
                alts=si.alts if isinstance(si,PtrIte) else [(True,si)]
                loc=member('MSG_header_image_struct','number_of_lines')
                for cc,q in alts:
                    if q.obj is None: vm_.oblige(st_,Not(cc) if cc is not True else FALSE,'quality entries need an image structure'); continue
                    g=bv(vm_.read(st_,q.obj,loc[0],2),16)==bv(extra,16)
                    vm_.oblige(st_,z3.Implies(cc,g) if cc is not True else g,'one quality entry per image line')
            # a record of another type keeps the other members
            for c2,(code2,L2,m2) in REC.items():
                if c2==c or m2 not in M: continue
                a,b=vm_.read(base,this,M[m2][0],8),vm_.read(st_,this,M[m2][0],8)
                from sym import same
                if not same(a,b): vm_.oblige(st_,FALSE,'a %s record leaves header.%s alone'%(c,m2))
                else: U.ok('a %s record leaves header.%s alone'%(c,m2))
    vm.back_hook=back
    def entry(vm_,fr,h,st_):
        for c,(code,L,m) in REC.items():
            if m not in M: continue
            p=vm_.read(st_,this,M[m][0],8)
            for cc,q in (p.alts if isinstance(p,PtrIte) else [(True,p)]):
                if not(isinstance(q,Ptr) and q.obj is None): vm_.oblige(st_,Not(cc) if cc is not True else FALSE,'a header read before leaves no %s behind'%m)
                else: U.ok('a header read before leaves no %s behind'%m)
    vm.entry_hook=entry; vm.merge_freed=True
    outs=vm.call_fn(prog.funcs[fs[0]],[Ptr(this,0),contracts.fake_stream(vm,st)],st)
    for o in outs:
        if o.kind=='throw': vm.oblige(o.st,str(getattr(o.val,'tinfo','')).startswith('_ZTISt'),'a malformed header ends in a standard exception')
    rets=U.rets(vm,outs,allow=('ret','throw'),what='MSG_header::read_from')
    F=lambda i,n: z3.Concat(*[sel(z3.BitVecVal(i+k,64)) for k in range(n)]) if n>1 else sel(z3.BitVecVal(i,64))
    for o in rets:
        g=lambda m: bv(vm.read(o.st,this,*M[m]),8*M[m][1])
        vm.oblige(o.st,g('f_typecode')==z3.ZeroExt(24,F(3,1)),'primary header: file type')
        vm.oblige(o.st,g('total_header_length')==F(4,4),'primary header: total header length')
        vm.oblige(o.st,g('data_field_length')==F(8,8),'primary header: data field length')
        vm.oblige(o.st,g('filesize')==z3.UDiv(F(8,8),z3.BitVecVal(8,64))+z3.ZeroExt(32,F(4,4)),'file size')
        vm.oblige(o.st,z3.And(F(0,1)==0,F(1,2)==16),'accepted headers start with a primary header of 16 bytes')
        vm.oblige(o.st,bv(vm.read(o.st,pos,0,8),64)==z3.ZeroExt(32,F(4,4)),'exactly the declared header bytes are consumed')
# ------------------------------------------------------------------ concrete oracle
def cds(b,o): return 'day_from_epoch=%d,msec_in_day=%d,unixtime=%d'%(be(b,o,2),be(b,o+2,4),86400*be(b,o,2)+be(b,o+2,4)//1000-378691200)
def sgn(v,n): return v-(1<<8*n) if v>>(8*n-1) else v
def cstr(b): return b.split(b'\0')[0]
def fnum(b):
    m=re.match(rb'[ \t\n\v\f\r]*([+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)',b)
    return None if not m else struct.unpack('<f',struct.pack('<f',float(m.group(1))))[0] if abs(float(m.group(1)))<3e38 else None
def fz(v): return '%.9g'%v
def decode(c,r,nlines=None):
    """record bytes -> text of its members, or None when the record is to be refused; 'ANY' parts are not compared"""
    if c=='MSG_header_image_struct':
        px=be(r,4,2)*be(r,6,2); return 'struct bpp=%d cols=%d lines=%d comp=%d pixels=%d size=%d'%(r[3],be(r,4,2),be(r,6,2),r[8],px,(px*r[3]+7)//8)
    if c=='MSG_header_image_navig':
        n=cstr(r[3:35]) ; raw=r[3:35]; lon=plane=pl='0'; name='*'
        if raw[:1]==b'G':
            name=cstr(raw[:4]).hex(); x=fnum(cstr(raw[5:]).split(b')')[0]); lon=fz(x) if x is not None else '*'
        elif raw[:2]==b'PO':
            name=cstr(raw[:5]).hex(); t=cstr(raw[6:]); x=fnum(t); plane=fz(x) if x is not None else '*'
            if b',' in t: y=fnum(t.split(b',',1)[1]); pl=fz(y) if y is not None else '*'
        elif raw[:2]==b'PS': name=b'PSD'.hex()
        elif raw[:1]==b'M': name=b'MERCATOR'.hex()
        i=lambda o: sgn(be(r,o,4),4)
        return 'navig name=%s lon=%s plane=%s plon=%s csf=%d lsf=%d co=%d lo=%d CFAC=%d LFAC=%d COFF=%d LOFF=%d'%(name,lon,plane,pl,i(35),i(39),i(43),i(47),i(35),i(39),i(43),i(47))
    if c=='MSG_header_image_datafunc': return 'datafunc text=%s'%cstr(r[3:]).hex()
    if c=='MSG_header_annotation':
        a=cstr(r[3:64])
        if len(a)<59: return None
        return 'annotation all=%s '%a.hex()+' '.join('%s=%s'%(n,a[o:o+k].hex()) for n,o,k in ANN)
    if c=='MSG_header_timestamp': return 'timestamp '+cds(r,4)
    if c=='MSG_header_ancillary_text': return None if len(r)<=3 else 'ancillary text=%s'%cstr(r[3:]).hex()
    if c=='MSG_header_key': return 'key number=%d seed=%d'%(r[3],be(r,4,8))
    if c=='MSG_header_segment_id': return 'segment sc=%d ch=%d seq=%d start=%d end=%d fmt=%d'%(be(r,3,2),r[5],be(r,6,2),be(r,8,2),be(r,10,2),r[12])
    if c=='MSG_header_segment_quality':
        return 'quality n=%d'%nlines+''.join(' [%d,%s,%d,%d,%d]'%(sgn(be(r,3+13*i,4),4),cds(r,7+13*i),r[13+13*i],r[14+13*i],r[15+13*i]) for i in range(nlines))
def parse(b):
    """whole header -> expected lines, or None when it has to be refused"""
    if len(b)<16 or b[0]!=0 or be(b,1,2)!=16: return None
    thl=be(b,4,4)
    if thl<16 or len(b)<thl: return None
    pos=16; lines=None; out={}
    codes={v[0]:(k,v[1]) for k,v in REC.items()}
    while pos<thl:
        left=thl-pos
        if left<3: return None
        ln=be(b,pos+1,2)
        if ln<3 or ln>left or b[pos] not in codes: return None
        c,L=codes[b[pos]]; r=b[pos:pos+ln]
        if L and ln!=L: return None
        if c=='MSG_header_segment_quality':
            if lines is None or ln<3+13*lines: return None
        d=decode(c,r,lines)
        if d is None: return None
        if c=='MSG_header_image_struct': lines=be(r,6,2)
        out[c]=d; pos+=ln
    return ['primary type=%d thl=%d dfl=%d size=%d'%(b[3],thl,be(b,8,8),(be(b,8,8)//8+thl)&((1<<64)-1))]+[out[c] for c in REC if c in out]
def match(got,want):
    if want is None: return got.startswith('EXC')
    w='|'.join(want)
    if '*' not in w: return got==w
    return re.fullmatch('.*'.join(re.escape(x) for x in w.split('*')),got) is not None
# ------------------------------------------------------------------ inputs
def rec(rnd,c,lines=None):
    """a well-formed record"""
    code,L,m=REC[c]; p=lambda n: n.to_bytes(2,'big')
    if c=='MSG_header_image_struct': return bytes([code])+p(9)+bytes([rnd.choice([1,8,10,12,16,255])])+p(rnd.randint(0,65535))+p(lines)+bytes([rnd.randint(0,255)])
    if c=='MSG_header_image_navig':
        n=rnd.choice([b'GEOS(%+d.%d)'%(rnd.randint(-180,180),rnd.randint(0,9)),b'GEOS(+000.0)',b'POLAR(%d,%d)'%(rnd.randint(-90,90),rnd.randint(-180,180)),b'PSD',b'MERCATOR',b'GEOS(',b'GEOS',b'POLAR',b'POLAR(12)',rnd.randbytes(32).replace(b'n',b'm').replace(b'i',b'j').replace(b'I',b'j').replace(b'x',b'1'),b'GEOS'+b'('*28])[:32]
        n=n+rnd.choice([b'\0',b' '])*(32-len(n)); return bytes([code])+p(51)+n+rnd.randbytes(16)
    if c=='MSG_header_annotation': return bytes([code])+p(64)+(bytes(rnd.randint(33,126) for _ in range(61)) if rnd.random()<.9 else rnd.randbytes(61))
    if c in('MSG_header_image_datafunc','MSG_header_ancillary_text'):
        n=rnd.choice([0,1,2,3,17,400,rnd.randint(0,3000)]); t=bytes(rnd.randint(1,255) for _ in range(n))
        if rnd.random()<.2: t=rnd.randbytes(n)
        return bytes([code])+p(3+n)+t
    if c=='MSG_header_segment_quality': return bytes([code])+p(3+13*lines)+rnd.randbytes(13*lines)
    return bytes([code])+p(L)+rnd.randbytes(L-3)
def header(rnd,cs=None):
    cs=cs if cs is not None else [c for c in REC if rnd.random()<.6]
    lines=rnd.choice([0,1,2,3,5,64,464,300]); have=None; out=b''
    if rnd.random()<.3: rnd.shuffle(cs)
    for c in cs:
        if c=='MSG_header_segment_quality' and have is None: continue
        out+=rec(rnd,c,lines)
        if c=='MSG_header_image_struct': have=lines
    return b'\0\0\x10'+bytes([rnd.choice([0,1,2,3,128,129,130,200])])+(16+len(out)).to_bytes(4,'big')+(rnd.randint(0,1<<40) if rnd.random()<.8 else rnd.getrandbits(64)).to_bytes(8,'big')+out
def damage(rnd,h):
    """a malformed relative of a header"""
    h=bytearray(h); pos=[]; p=16
    while p+3<=len(h): pos.append(p); n=be(h,p+1,2); p+=n if n else 3
    k=rnd.randint(0,9)
    if k==0 and pos: q=rnd.choice(pos); h[q+1:q+3]=(rnd.choice([0,1,2,3,4,65535,be(h,q+1,2)+1,be(h,q+1,2)-1])&65535).to_bytes(2,'big')
    elif k==1: h[4:8]=rnd.choice([0,1,15,16,17,18,len(h)-1,len(h)+1,len(h)+100,max(0,len(h)-5)]).to_bytes(4,'big')
    elif k==2: h=h[:rnd.randint(0,len(h))]
    elif k==3 and pos: h[rnd.choice(pos)]=rnd.choice([0,1,2,3,4,5,6,7,8,127,128,129,130,255])
    elif k==4:
        n=len(h); e=rnd.choice([b'\x03\0\0',b'\x06\0\0',b'\x06\0\3',b'\x03\0\2',b'\x06\0\1',b'\x81\0\3',b'\x01',b'\x80\0',b'\x03\xff\xff',b'\x06\xff\xffabc',b'\x05\0\x0a',b'\x81\xff\xff'+b'\0'*40]); h+=e; h[4:8]=len(h).to_bytes(4,'big')
    elif k==5:
        for _ in range(rnd.randint(1,6)): h[rnd.randrange(len(h))]=rnd.randint(0,255)
        if be(h,4,4)>1<<22: h[4]=h[5]=0
    elif k==6: h[rnd.choice([0,1,2])]^=rnd.randint(1,255)
    elif k==7: h=bytearray(b'\0\0\x10\0'+(16+rnd.randint(0,64)).to_bytes(4,'big')+bytes(8)+rnd.randbytes(80))
    elif k==8 and len(pos)>1:
        q=pos[-1]; h=h[:16]+h[q:]+h[16:q]; h[4:8]=len(h).to_bytes(4,'big')
    elif k==9 and pos:
        q=rnd.choice(pos); n=be(h,q+1,2); h=h+h[q:q+n]; h[4:8]=len(h).to_bytes(4,'big')
    if len(h)>=8 and be(h,4,4)>1<<24: h[4]=0
    return bytes(h)
def long_headers(rnd):
    """headers with records near the largest lengths their 16-bit length allows, in the middle and at the end"""
    out=[]
    def mk(*recs):
        b=b''.join(recs); out.append(b'\0\0\x10\0'+(16+len(b)).to_bytes(4,'big')+bytes(8)+b)
    text=lambda t,n: bytes([t])+n.to_bytes(2,'big')+bytes(rnd.randint(33,126) for _ in range(n-3))
    key=rec(rnd,'MSG_header_key',0)
    for t in(3,6):
        for n in(255,256,257,32766,32767,32768,32769,65534,65535): mk(text(t,n),key); mk(key,text(t,n))
    for n in(255,256,257,2520,2521,2522,5000,5040): mk(rec(rnd,'MSG_header_image_struct',n),rec(rnd,'MSG_header_segment_quality',n),key)
    return out
