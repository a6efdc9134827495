"""MSG native files: documented layouts (symbolic and concrete) and proof units (C04, C05)."""
import re, build, layout, records, contracts
from records import be
NAT='msat/msg-native/'
INC=''.join('#include <msat/msg-native/%s.h>\n'%h for h in('MSG_native',))+''.join('static int z%d=sizeof(%s);\n'%(i,c) for i,c in enumerate(['IMPF_Packet_Header','MSG_native_lineheader','U_MARF_Header','MSG_native_header','MSG_native_trailer','MSG_native_line','MSG_native_linedata']))
def cds(p,o): return [(p+'day_from_epoch','u2',o),(p+'msec_in_day','u4',o+2),(p+'unixtime','unix',o),(p+'usecs','usecs',o+2)]
G='gp_packet_header.'; S_='gp_packet_subheader.'
PKH=[(G+n,'u1',i) for i,n in enumerate(['HeaderVersionNo','PacketType','SubHeaderType','SourceFacilityId','SourceEnvId','SourceInstanceId'])]+[(G+'SourceSUId','u4',6)]+[(G+'SourceCPUId[%d]'%i,'u1',10+i) for i in range(4)]+[(G+'DestFacilityId','u1',14),(G+'DestEnvId','u1',15),(G+'SequenceCount','u2',16),(G+'PacketLength','u4',18),
 (S_+'SubHeaderVersionNo','u1',22),(S_+'ChecksumFlag','u1',23)]+[(S_+'Acknowledgement[%d]'%i,'u1',24+i) for i in range(4)]+[(S_+'ServiceType','u1',28),(S_+'ServiceSubtype','u1',29)]+cds(S_+'PacketTime.',30)+[(S_+'SpacecraftId','u2',36)]
LH=[('LINE1_5Version','u1',0),('SatelliteId','u2',1)]+cds('TrueRepeatCycleStart.',3)+[('TrueRepeatCycleStart.microsecs','u2',9),('TrueRepeatCycleStart.nanosecs','u2',11),('LineNumberInGrid','u4',13),('ChannelId','u1',17)]+cds('L10LineMeanAcquisitionTime.',18)+[('LineValidity.value','u1',24),('LineRadiometricQuality.value','u1',25),('LineGeometricQuality.value','u1',26)]
MPH=5114; PK=38; LHL=27; H15=445248; T15=380325
# text field -> (offset, width) of its pieces
UM=[[(80*i,80)] for i in range(6)]+[[(480+62*i,46),(526+62*i,16)] for i in range(5)]+[[(2154+80*i,80)] for i in range(37)]
HREC=['SatelliteStatus','ImageAcquisition','CelestialEvents','ImageDescription','RadiometricProc','GeometricProc','IMPFConfiguration']
TREC=['ImageProdStats','NavigExtrResult','RadiometricQuality','GeometricQuality','TimelinComple']
FIELDS={'IMPF_Packet_Header':(PKH,38),'MSG_native_lineheader':(LH,27)}
_lay=[]
def lay():
    if not _lay: _lay.append(layout.dump(INC))
    return _lay[0]
def member(cls,path):
    """(offset, size) of a member; an index in brackets selects an element; inherited members by their last name"""
    ix=[int(x) for x in re.findall(r'\[(\d+)\]',path)]; p=re.sub(r'\[\d+\]','[]',path)
    m={q:(o,n,d) for q,o,n,t,d in layout.flatten(lay(),cls)}
    if p not in m:
        par,_,last=p.rpartition('.'); c=[v for q,v in m.items() if q.split('.')[-1]==last and q.startswith(par.split('.')[0])] if par else []
        if len(c)!=1:
            c=[v for q,v in m.items() if q==p or (q.startswith(par+'.') and q.endswith('.'+last))]
        if len(c)!=1: return None
        o,n,d=c[0]
    else: o,n,d=m[p]
    for i,(c,s) in zip(ix,d): o+=i*s
    return o,n
EXT=()
def units(srcs): return [build.emit_ir(s) for s in srcs]
BASE=['msat/hrit/MSG_machine.cpp','msat/hrit/MSG_time_cds.cpp']
def fields(U,vm,st,obj,base,table,cls,arr,pos,pre=''):
    """every member of the table holds the value encoded at its documented offset of the bytes arr[pos..]"""
    import z3
    from sym import UNDEF,FALSE
    for path,kind,off in table:
        loc=member(cls,path)
        if loc is None: U.notes.append('%s.%s has no counterpart member in this tree'%(cls,path)); continue
        nm='%s%s.%s holds the value encoded at offset %d'%(pre,cls,path,off)
        got=vm.read(st,obj,base+loc[0],loc[1])
        if got is UNDEF: vm.oblige(st,FALSE,nm); continue
        want,_=records.symbolic(vm,arr,kind,pos+off,(),loc[1])
        if U.equal(vm,st,got,want,nm,8*loc[1]): U.ok(nm)
def unit_fixed(cls,src):
    table,L=FIELDS[cls]
    def fn(U):
        import z3, random
        from sym import State,Ptr,Unsupported
        from common import model_bytes
        prog=U.prog(units([NAT+src]+BASE)); vm=U.vm(prog); contracts.machine(vm,prog); fs=prog.find(cls+'::read_from(')
        if not fs: raise Unsupported('no %s::read_from'%cls)
        st=State(); arr=z3.Array('rec',z3.BitVecSort(64),z3.BitVecSort(8)); b=vm.buf(st,'record',L,arr=arr)
        this=vm.new(st,'this',lay()[cls][0],'heap',z3.Array('old',z3.BitVecSort(64),z3.BitVecSort(8)))
        rnd=random.Random(3); U.on_model=lambda ev,o:(cls,model_bytes(ev,o,arr,L,rnd))
        for o in U.rets(vm,vm.call_fn(prog.funcs[fs[0]],[Ptr(this,0),Ptr(b,0)],st),what=cls+'::read_from'): fields(U,vm,o.st,this,0,table,cls,arr,0)
    return fn
# ------------------------------------------------------------------ text fields of the U-MARF header
def str_contracts(vm,prog):
    def rec(app):
        def c(vm_,st_,a,I):
            q=vm_.resolve(st_,a[1]); d=vm_.resolve(st_,a[0])
            if len(q)!=1 or len(d)!=1: from sym import Unsupported; raise Unsupported('conditional text')
            q,d=q[0][1],d[0][1]; st_.ghost['txt']=st_.ghost.get('txt',())+((app,d.obj,d.off,q.obj,q.off,vm_.content(st_,q.obj)),)
            vm_.chk(st_,True,q,1,'text')
            return a[0]
        return c
    for nm,d in prog.dem.items():
        m=re.match(r'std::(?:__cxx11::)?basic_string<char.*>::(operator=|assign|operator\+=|append)\(char const\*\)$',d)
        if m: vm.contracts[nm]=rec(m.group(1) in('operator+=','append'))
    vm.assumptions.add('std::string assignment and += of a C string copy its characters up to the NUL')
def texts(U,vm,st,this,base):
    """pieces of each mphinfo[] string after the recorded assignments"""
    L=lay(); a=[l[1] for l in L['U_MARF_Header'][1] if l[0]==1 and l[3]=='mphinfo'][0]
    res={}
    for app,do,doff,so,soff,_ in st.ghost.get('txt',()):
        if do is not this: continue
        i,r=divmod(doff-base-a,32)
        if r: continue
        res[i]=(res.get(i,[]) if app else [])+[(so,soff)]
    return res
def check_texts(U,vm,st,this,base,src):
    got=texts(U,vm,st,this,base)
    for i,p in enumerate(UM): vm.oblige(st,got.get(i)==[(src,o) for o,w in p],'text field %d is the text at offset%s %s'%(i,'s' if len(p)>1 else '',' and '.join(str(o) for o,w in p)))
    vm.oblige(st,set(got)==set(range(len(UM))),'exactly the documented text fields are set')
def unit_marf(U):
    import z3
    from sym import State,Ptr,Unsupported
    prog=U.prog(units([NAT+'MSG_native_header.cpp'])); vm=U.vm(prog); fs=prog.find('U_MARF_Header::read_from(')
    if not fs: raise Unsupported('no U_MARF_Header::read_from')
    st=State(); arr=z3.Array('rec',z3.BitVecSort(64),z3.BitVecSort(8)); b=vm.buf(st,'header',MPH+1,arr=arr); st.assume(z3.Select(arr,z3.BitVecVal(MPH,64))==0)
    this=vm.new(st,'this',lay()['U_MARF_Header'][0],'heap','zero'); str_contracts(vm,prog); U.on_model=lambda ev,o:('U_MARF_Header',None)
    for o in U.rets(vm,vm.call_fn(prog.funcs[fs[0]],[Ptr(this,0),Ptr(b,0)],st),what='U_MARF_Header::read_from'): check_texts(U,vm,o.st,this,0,b)
# ------------------------------------------------------------------ whole header, trailer and line
def stream(vm,prog,arr):
    """std::istream positioned at the start of arr: read delivers the next bytes or the stream fails"""
    import z3
    from sym import bv,norm
    def rd(vm_,st_,a,I):
        q=vm_.resolve(st_,a[1])[0][1]; pos=st_.ghost.get('pos',0); n=a[2]
        vm_.chk(st_,True,q,n,'istream::read')
        if isinstance(n,int) and n==0: return a[0]
        def val(c_,s_,rel,m_,pos=pos):
            p=norm(z3.simplify(bv(rel,64)+bv(pos,64)))
            bs=[z3.Select(arr,bv(p,64)+i) for i in reversed(range(m_))]; return z3.Concat(*bs) if m_>1 else bs[0]
        vm_.addrange(st_,q.obj,q.off,n,val,'file'); st_.ghost['pos']=norm(z3.simplify(bv(pos,64)+bv(n,64)))
        return a[0]
    def fail(vm_,st_,a,I):
        k=st_.ghost.get('nf',0); st_.ghost['nf']=k+1; return z3.Bool('fail%d'%k)
    for nm,d in prog.dem.items():
        if re.match(r'std::istream::read\(|std::basic_istream<.*>::read\(',d): vm.contracts[nm]=rd
        if re.match(r'std::(basic_ios<.*>|ios)::(fail|operator!)\(',d): vm.contracts[nm]=fail
        if re.match(r'std::(basic_ios<.*>|ios)::(operator bool|good)\(',d): vm.contracts[nm]=lambda vm_,st_,a,I: z3.Not(fail(vm_,st_,a,I))
    vm.assumptions.add('istream::read delivers the next bytes of the file or sets the failure flag')
def record_contracts(vm,prog,RECS):
    from sym import Unsupported
    for nm,d in prog.dem.items():
        m=re.match(r'(MSG_data_\w+)::read_from\(unsigned char const\*\)',d)
        if m and m.group(1) in RECS:
            def ct(vm_,st_,a,I,cls=m.group(1)):
                L=RECS[cls]['length']; qs=vm_.resolve(st_,a[0]); ps=vm_.resolve(st_,a[1])
                if len(qs)!=1 or len(ps)!=1: raise Unsupported('conditional record pointers')
                q,p=qs[0][1],ps[0][1]; vm_.chk(st_,True,p,L,'record %s'%cls)
                st_.ghost['log']=st_.ghost.get('log',())+((cls,q.obj,q.off,p.obj,p.off,vm_.content(st_,p.obj)),); return L
            vm.contracts[nm]=ct
def unit_whole(which):
    """MSG_native_header::read / MSG_native_trailer::read"""
    hdr=which=='header'; cls='MSG_native_'+which; names=HREC if hdr else TREC; p0=MPH if hdr else 0; L15=H15 if hdr else T15; lev='MSG_data_level_15_'+which
    def fn(U):
        import z3
        from sym import State,Ptr,bv,Unsupported,FALSE,norm,Or,zbool
        RECS=records.load()
        prog=U.prog(units([NAT+cls+'.cpp',NAT+'MSG_native_packetheader.cpp']+BASE)); vm=U.vm(prog); contracts.machine(vm,prog); contracts.opaque_strings(vm,prog,but=r'operator=|operator\+=|::(assign|append)\('); str_contracts(vm,prog); record_contracts(vm,prog,RECS)
        fs=prog.find(cls+'::read(')
        if not fs: raise Unsupported('no %s::read'%cls)
        arr=z3.Array('file',z3.BitVecSort(64),z3.BitVecSort(8)); st=State(); stream(vm,prog,arr); f=contracts.fake_stream(vm,st)
        this=vm.new(st,'this',lay()[cls][0],'heap',z3.Array('old',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
        U.on_model=lambda ev,o:(cls,None)
        S=lambda i:z3.Select(arr,z3.BitVecVal(i,64)); PL=z3.Concat(*[S(p0+18+i) for i in range(4)])
        top={l[3]:(l[1],l[2]) for l in lay()[cls][1] if l[0]==1}
        outs=vm.call_fn(prog.funcs[fs[0]],[Ptr(this,0),f],st)
        for o in outs:
            if o.kind=='throw':
                fl=[z3.Bool('fail%d'%k) for k in range(o.st.ghost.get('nf',0))]
                vm.oblige(o.st,z3.Or(PL!=L15+15,*fl),'%s is refused only when it cannot be read or its packet length is not the documented one'%cls)
                vm.oblige(o.st,str(o.val.tinfo).startswith('_ZTISt'),'%s is refused with a standard exception'%cls)
        for o in U.rets(vm,outs,allow=('ret','throw'),what=cls+'::read'):
            vm.oblige(o.st,z3.And(PL==L15+15,*[z3.Not(z3.Bool('fail%d'%k)) for k in range(o.st.ghost.get('nf',0))]),'%s is accepted only when read completely with the documented packet length'%cls)
            vm.oblige(o.st,o.st.ghost.get('pos')==p0+PK+L15,'%s: the stream is left at the end of the record'%cls)
            fields(U,vm,o.st,this,top['impf_packet_header'][0],PKH,'IMPF_Packet_Header',arr,p0)
            j=z3.BitVec('j',64)
            if hdr:
                b=top['mph_sph_header'][0]; tx=o.st.ghost.get('txt',()); srcs={x[3] for x in tx}
                vm.oblige(o.st,len(srcs)==1,'all the text fields come from the same bytes')
                if len(srcs)==1:
                    so=tx[0][3]; check_texts(U,vm,o.st,this,b,so)
                    same(U,vm,o.st,so,tx[0][5],0,MPH,arr,0,'the text fields are decoded from the first %d bytes of the file'%MPH)
                    s2=o.st.fork(); vm.oblige(s2,bv(rdat(vm,s2,so,tx[0][5],MPH),8)==0 if so.size!=MPH else FALSE,'the texts end inside the buffer')
            lg=o.st.ghost.get('log',()); subs={l[1]:l[2] for l in lay()[lev][1] if l[0]==1} if lev in lay() else {}
            off=p0+PK+1; base=top['l15'][0]
            vm.oblige(o.st,[c for c,*_ in lg]==['MSG_data_'+n for n in names],'%s: the records are decoded in the documented order'%cls)
            for (c,qi,qo,pb,po,pc),n in zip(lg,names):
                vm.oblige(o.st,qi is this and subs.get(qo-base)==c,'%s goes to its own member'%c)
                same(U,vm,o.st,pb,pc,po,RECS[c]['length'],arr,off,'%s is decoded from offset %d of the file'%(c,off)); off+=RECS['MSG_data_'+n]['length']
            vm.oblige(o.st,off==p0+PK+L15,'the records fill the %s'%which)
    return fn
def rdat(vm,st,obj,c,off):
    return vm._read(st,c,len(c.layers)-1,off,1,obj)
def same(U,vm,st,obj,c,off,n,arr,pos,name):
    """the n bytes of obj (content c) at off are arr[pos..pos+n)"""
    import z3
    from sym import bv,norm
    j=z3.BitVec('j',64); s=st.fork(); s.freed=frozenset(); s.assume(z3.ULT(j,bv(n,64)))
    got=rdat(vm,s,obj,c,norm(z3.simplify(bv(off,64)+j)))
    vm.oblige(s,bv(got,8)==z3.Select(arr,bv(pos,64)+j),name)
def unit_line(U):
    import z3
    from sym import State,Ptr,bv,Unsupported,FALSE,norm
    cls='MSG_native_line'
    prog=U.prog(units([NAT+'MSG_native_line.cpp',NAT+'MSG_native_packetheader.cpp']+BASE)); vm=U.vm(prog); contracts.machine(vm,prog); contracts.opaque_strings(vm,prog)
    fs=prog.find(cls+'::read(')
    if not fs: raise Unsupported('no %s::read'%cls)
    arr=z3.Array('file',z3.BitVecSort(64),z3.BitVecSort(8)); st=State(); stream(vm,prog,arr); f=contracts.fake_stream(vm,st)
    this=vm.new(st,'this',lay()[cls][0],'heap','zero',const=False); U.on_model=lambda ev,o:(cls,None)
    top={l[3]:l[1] for l in lay()[cls][1] if l[0]==1}
    dd=[l for l in lay()['MSG_native_linedata'][1] if l[0]==1]; do={l[3]:l[1] for l in dd}
    PL=z3.ZeroExt(32,z3.Concat(*[z3.Select(arr,z3.BitVecVal(18+i,64)) for i in range(4)])); n=PL-15-LHL
    outs=vm.call_fn(prog.funcs[fs[0]],[Ptr(this,0),f],st)
    for o in outs:
        if o.kind=='throw':
            fl=[z3.Bool('fail%d'%k) for k in range(o.st.ghost.get('nf',0))]
            vm.oblige(o.st,z3.Or(z3.ULT(PL,15+LHL),*fl),'a line is refused only when it cannot be read or its packet is too short for a line header')
            vm.oblige(o.st,str(o.val.tinfo).startswith('_ZTISt'),'a line is refused with a standard exception')
    for o in U.rets(vm,outs,allow=('ret','throw'),what=cls+'::read'):
        vm.oblige(o.st,z3.And(z3.UGE(PL,15+LHL),*[z3.Not(z3.Bool('fail%d'%k)) for k in range(o.st.ghost.get('nf',0))]),'a line is accepted only when its packet was read completely')
        vm.oblige(o.st,bv(o.st.ghost.get('pos',0),64)==PK+LHL+n,'the stream is left at the end of the line packet')
        fields(U,vm,o.st,this,top['pkh'],PKH,'IMPF_Packet_Header',arr,0); fields(U,vm,o.st,this,top['header'],LH,'MSG_native_lineheader',arr,PK)
        vm.oblige(o.st,bv(vm.read(o.st,this,top['data']+do['datasize'],8),64)==n,'the sample data is as long as the packet says')
        p=vm.read(o.st,this,top['data']+do['data_10bit'],8); alts=[q for c,q in vm.resolve(o.st,p)]
        if len(alts)!=1 or alts[0].obj is None: vm.oblige(o.st,n==0,'the sample data is stored'); continue
        same(U,vm,o.st,alts[0].obj,vm.content(o.st,alts[0].obj),alts[0].off,n,arr,PK+LHL,'the sample data is the rest of the packet')
# ------------------------------------------------------------------ C05: unpacking
def bits10(b,i): return (int.from_bytes(b[10*i//8:10*i//8+2],'big')>>(6-(10*i)%8))&0x3ff
def unit_unpack(given,R):
    """to_sample: sample i is the 10-bit big-endian field at bit 10*i; given: the caller supplies the buffer of datasize*8/10 samples; the line has 5*groups+R bytes"""
    def fn(U):
        import z3
        from sym import State,Ptr,bv,Unsupported,FALSE,norm
        cls='MSG_native_linedata'
        prog=U.prog(units([NAT+'MSG_native_line.cpp'])); vm=U.vm(prog); fs=prog.find(cls+'::to_sample(')
        if not fs: raise Unsupported('no %s::to_sample'%cls)
        st=State(); arr=z3.Array('line',z3.BitVecSort(64),z3.BitVecSort(8)); G=z3.BitVec('groups',64); st.assume(z3.ULE(G,(1<<32)//5)); n=norm(z3.simplify(5*G+R))
        ns=norm(z3.simplify(4*G+8*R//10))   # = 8*n/10 rounded down
        b=vm.buf(st,'data',n,arr=arr); this=vm.new(st,'this',lay()[cls][0],'heap','zero'); do={l[3]:l[1] for l in lay()[cls][1] if l[0]==1}
        vm.write(st,this,do['datasize'],8,n); vm.write(st,this,do['data_10bit'],8,Ptr(b,0))
        sp=vm.new(st,'samples',8); cn=vm.new(st,'nsample',8)
        out=None
        if given: out=vm.new(st,'given',norm(z3.simplify(2*ns)),'arg',z3.Array('old',z3.BitVecSort(64),z3.BitVecSort(8)))
        vm.write(st,sp,0,8,Ptr(out,0) if given else Ptr(None,0))
        def case(ev,o):
            from common import model_bytes
            import random
            k=5*ev(G).as_long()+R; k=min(k,4000+R); return ('unpack',model_bytes(ev,o,arr,k,random.Random(5)))
        U.on_model=case; i=z3.BitVec('i',64)
        for o in U.rets(vm,vm.call_fn(prog.funcs[fs[0]],[Ptr(this,0),Ptr(sp,0),Ptr(cn,0)],st),what='to_sample'):
            vm.oblige(o.st,bv(vm.read(o.st,cn,0,8),64)==ns,'as many samples as 10-bit fields fit in the line')
            alts=[q for c,q in vm.resolve(o.st,vm.read(o.st,sp,0,8))]
            if len(alts)!=1 or alts[0].obj is None or (given and alts[0].obj is not out): vm.oblige(o.st,FALSE,'samples are returned'); continue
            q=alts[0]; s=o.st.fork(); s.assume(z3.ULT(i,ns)); k=z3.BitVec('g',64); r=z3.BitVec('r',64)
            # i = 4*g + r
            for rr in range(4):
                s2=s.fork(); g=z3.BitVec('g%d'%rr,64); s2.assume(z3.ULE(g,1<<31)); s2.assume(z3.ULT(4*g+rr,ns))
                got=vm.read(s2,q.obj,norm(z3.simplify(bv(q.off,64)+8*g+2*rr)),2)
                w16=z3.Concat(z3.Select(arr,5*g+rr),z3.Select(arr,5*g+rr+1)); want=z3.LShR(w16,6-2*rr)&0x3ff
                if U.equal(vm,s2,got,want,'sample 4g+%d is the 10-bit field at bit 10*(4g+%d)'%(rr,rr),16): U.ok('sample 4g+%d'%rr)
    return fn
# ------------------------------------------------------------------ concrete side
def cstr(b,o):
    e=b.find(b'\0',o); return b[o:] if e<0 else b[o:e]
def text(b,i): return b''.join(cstr(b,o) for o,w in UM[i])
def umarf(rnd,fields={}):
    h=bytearray(MPH)
    for i,p in enumerate(UM):
        for k,(o,w) in enumerate(p):
            v=fields.get(i,())
            if isinstance(v,bytes): v=(v,)
            t=v[k] if k<len(v) else bytes(rnd.choice(b'ABCxyz0189 :._-\n') for _ in range(rnd.choice([0,1,w-1,rnd.randint(0,w-1)])))
            h[o:o+w]=t[:w-1].ljust(w,b'\0')
    return bytes(h)
def packet(rnd,n):
    p=bytearray(rnd.randbytes(PK)); p[18:22]=(n+15).to_bytes(4,'big'); return bytes(p)
def native_file(rnd,gen,sel=None,nl=2,nc=8,extra=0,hrvc=None,hrvl=None):
    """-> bytes, expectations"""
    sel=sel or ''.join(rnd.choice('X-') for _ in range(12)); hrvc=nc if hrvc is None else hrvc; hrvl=3*nl if hrvl is None else hrvl
    recs={n:gen(rnd,'MSG_data_'+n,'random') for n in HREC+TREC}
    head=packet(rnd,H15)+b'\x01'+b''.join(recs[n] for n in HREC); trail=packet(rnd,T15)+b'\x01'+b''.join(recs[n] for n in TREC)
    lines={i:[] for i in range(12)}; body=b''
    for l in range(nl):
        for c in range(12):
            if sel[c]!='X': continue
            for k in range(3 if c==11 else 1):
                cc=hrvc if c==11 else nc; n=(cc*10+7)//8+extra; lh=bytearray(rnd.randbytes(LHL)); d=rnd.randbytes(n); lines[c].append((packet(rnd,LHL+n),bytes(lh),d)); body+=b''.join(lines[c][-1])
    datapos=MPH+len(head); trpos=datapos+len(body)
    num=lambda v:b'Name                        : %d'%v
    f={8:(b'15Header                    : %-14d '%(len(head)),b'%d\n'%MPH),9:(b'15Data                      : %-14d '%len(body),b'%d\n'%datapos),10:(b'15Trailer                   : %-14d '%len(trail),b'%d\n'%trpos),39:b'SelectedBandIDs             : '+sel.encode(),
       40:num(7),41:num(6+nl),42:num(3),43:num(2+nc),44:num(nl),45:num(nc),46:num(hrvl),47:num(hrvc)}
    h=umarf(rnd,f)
    return h+head+body+trail,dict(h=h,head=head,trail=trail,lines=lines,sel=sel,nl=nl,nc=nc,hrvc=hrvc,hrvl=hrvl,recs=recs,datapos=datapos,trpos=trpos)
def image(lines,nl,nc):
    s=[0]*(nl*nc)
    for r,(p,h,d) in enumerate(lines[:nl]):
        for i in range(min(nc,len(d)*8//10)): s[r*nc+i]=bits10(d,i)
    return s
def fields_ok(table,cls,b,mem):
    """[(field, got, want)] that disagree"""
    bad=[]
    for path,kind,off in table:
        loc=member(cls,path)
        if loc is None: continue
        got=mem[loc[0]:loc[0]+loc[1]]; want=records.concrete(kind,b,off,(),loc[1])
        if not records.agrees(got,want): bad.append((path,got.hex(),want.hex()))
    return bad
