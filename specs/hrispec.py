"""HRI: numeric fields (C16), subframe records (C16), images and calibration (C17)."""
import re, struct, math
from fractions import Fraction as Fr
import build, layout
D='msat/hri/'
INC=''.join('#include <msat/hri/%s>\n'%h for h in('HRI_machine.h','HRI_subframe_label.h','HRI_subframe_identification.h','HRI_subframe_interpretation.h','HRI_subframe_keyslot.h','HRI_image.h'))+'struct KsProbe{HRI_keyslot k;}; static int z=sizeof(KsProbe)+sizeof(HRI_machine)+sizeof(HRI_subframe_label)+sizeof(HRI_subframe_identification)+sizeof(HRI_subframe_interpretation)+sizeof(HRI_subframe_keyslot)+sizeof(HRI_image);'
_l=[]
def lay():
    if not _l: _l.append(layout.dump(INC))
    return _l[0]
def fn(prog,rx):
    from sym import Unsupported
    l=[n for n,f in prog.funcs.items() if not f.decl and re.match(rx,prog.dem.get(n,''))]
    if not l: raise Unsupported('no function %s on this tree'%rx)
    return prog.funcs[l[0]]
def moff(cls,path):
    from sym import Unsupported
    for l in lay()[cls][1]:
        if l[6]==path: return l[1]
    raise Unsupported('%s has no member %s on this tree'%(cls,path))
# ---------------------------------------------------------------- the encodings
DEC={'r4_from_char6':[100,10,1,Fr(1,10),Fr(1,100),Fr(1,1000)],'r4_from_char5':[100,10,1,Fr(1,10),Fr(1,100)],'r4_from_char3':[1,Fr(1,10),Fr(1,100)],'r4f_from_char3':[10,1,Fr(1,10)],'r4f_from_char5':[Fr(1,10**k) for k in range(1,6)],'i2_from_char3':[100,10,1],'i2_from_char2':[10,1]}
WIDTH={'r4_from_buff':4,'r8_from_buff':8,'i2_from_buff':2,'i4_from_buff':4}; WIDTH.update({k:len(v) for k,v in DEC.items()})
OUT={k:('h' if k[0]=='i' and k!='i4_from_buff' else 'i' if k[0]=='i' else 'd' if k.startswith('r8') else 'f') for k in WIDTH}
def decimal(name,b): return sum((w*(c-48) for w,c in zip(DEC[name],b) if c!=32),Fr(0))
def ibm(b):
    """exact value of an IBM hexadecimal number: (negative, fraction, power of two)"""
    n=len(b); f=int.from_bytes(b[1:],'big'); return b[0]>>7,f,4*((b[0]&127)-64)-8*(n-1)
def ieee(neg,f,e,dbl):
    """bit pattern: truncated, clamped to the largest number, zero below the smallest normal number"""
    mb,bias,top=(52,1023,2047) if dbl else (23,127,255); sign=neg<<(63 if dbl else 31)
    if f==0: return sign
    L=f.bit_length(); x=e+L-1+bias
    if x>=top: return sign|(((top-1)<<mb)|((1<<mb)-1))
    if x<=0: return sign
    m=f<<(mb+1-L) if L<=mb+1 else f>>(L-mb-1)
    return sign|x<<mb|m&((1<<mb)-1)
def value(name,b):
    """what the encoding defines: an int, an exact decimal (Fraction) or the bit pattern of a real"""
    if name in DEC: v=decimal(name,b); return int(v) if name[0]=='i' else v
    if name=='i2_from_buff': return int.from_bytes(b,'big',signed=True)
    if name=='i4_from_buff': return int.from_bytes(b,'big',signed=True)
    return ieee(*ibm(b),dbl=name=='r8_from_buff')
def close(v,want): return abs(Fr(v)-want)<=want*Fr(6,10**7)+Fr(1,10**12)
# ---------------------------------------------------------------- proofs of the primitives
def machine(U,n,read='buf'):
    import z3
    from sym import State
    prog=U.prog([build.emit_ir(D+'HRI_machine.cpp')]); vm=U.vm(prog); st=State(); arr=z3.Array('in',z3.BitVecSort(64),z3.BitVecSort(8)); buf=vm.new(st,'in',n,'heap',arr); o=vm.new(st,'conv',lay()['HRI_machine'][0],'heap','zero',const=False)
    return prog,vm,st,arr,buf,o
def construct(U,vm,prog,st,o):
    from sym import Ptr
    return U.rets(vm,vm.call_fn(fn(prog,r'HRI_machine::HRI_machine\(\)'),[Ptr(o,0)],st),what='HRI_machine()')[0].st
def unit_int(name):
    def f(U):
        import z3
        from sym import Ptr
        n=WIDTH[name]; prog,vm,st,arr,buf,o=machine(U,n); st=construct(U,vm,prog,st,o); B=[z3.Select(arr,z3.BitVecVal(i,64)) for i in range(n)]; U.on_model=lambda ev,ob:('field',name,bytes(ev(x).as_long() for x in B))
        if name in DEC:
            for x in B: st.assume(z3.Or(x==32,z3.And(z3.UGE(x,48),z3.ULE(x,57))))
        for r in U.rets(vm,vm.call_fn(fn(prog,r'HRI_machine::%s\('%name),[Ptr(o,0),Ptr(buf,0)],st),what=name):
            want=z3.Concat(*B) if name not in DEC else sum((z3.If(x==32,z3.BitVecVal(0,16),(z3.ZeroExt(8,x)-48)*w) for x,w in zip(B,DEC[name])),z3.BitVecVal(0,16))
            if U.equal(vm,r.st,r.val,want,'%s is the number the bytes encode'%name,8*n if name not in DEC else 16): U.ok(name)
    return f
def unit_dec(name):
    """every pattern of blanks and digits; the digits symbolic, rounding included"""
    def f(U):
        import z3, itertools, affine
        from sym import Ptr, Unsupported
        W=DEC[name]; n=len(W); tol=TOL[name]
        for blank in itertools.product((0,1),repeat=n):
            prog,vm,st,arr,buf,o=machine(U,n); st=construct(U,vm,prog,st,o); X=[z3.BitVec('c%d'%i,8) for i in range(n)]; st=st.fork()
            for i in range(n):
                vm.content(st,buf) if False else None
                st.assume(z3.Select(arr,z3.BitVecVal(i,64))==(32 if blank[i] else X[i]))
                if not blank[i]: st.assume(z3.And(z3.UGE(X[i],48),z3.ULE(X[i],57)))
            U.on_model=lambda ev,ob,X=X,b=blank:('field',name,bytes(32 if b[i] else ev(X[i]).as_long() for i in range(n)))
            for r in U.rets(vm,vm.call_fn(fn(prog,r'HRI_machine::%s\('%name),[Ptr(o,0),Ptr(buf,0)],st),what=name):
                xs=[(z3.Select(arr,z3.BitVecVal(i,64)),)+((32,32) if blank[i] else (48,57)) for i in range(n)]; ws=[0 if b else w for w,b in zip(W,blank)]
                try: ok,why=affine.linear(r.val,xs,ws,-48*sum(ws),tol)
                except affine.No as e: raise Unsupported('%s is not computed by sums of multiples of its digits (%s)'%(name,e))
                U.result('%s is the decimal number spelt, blanks counting as zero (%s)'%(name,''.join(' ' if b else 'd' for b in blank)),ok,detail=why,solver='affine',case=('field',name,bytes(32 if b else 57 for b in blank)))
    return f
TOL={k:10*max(v)*Fr(4,2**23) for k,v in DEC.items() if k[0]=='r'}
def unit_ibm(name,lo=None,hi=None):
    """every sign and exponent, and every fraction, case by case on the number of leading zero bits of the fraction"""
    dbl=name.startswith('r8'); n=8 if dbl else 4; fb=8*(n-1); mb,bias,top,tot=(52,1023,2047,64) if dbl else (23,127,255,32)
    def f(U):
        import z3
        from sym import Ptr, bv, norm, fp_bits
        for k in range(fb+1)[lo:hi]:
            prog,vm,st,arr,buf,o=machine(U,n); st=construct(U,vm,prog,st,o); s=z3.BitVec('s',1); e=z3.BitVec('e',7)
            if k==fb: F_=z3.BitVecVal(0,fb)
            else:
                parts=([z3.BitVecVal(0,k)] if k else [])+[z3.BitVecVal(1,1)]+([z3.BitVec('f',fb-k-1)] if k<fb-1 else []); F_=z3.Concat(*parts) if len(parts)>1 else parts[0]
            whole=z3.Concat(s,e,F_)
            for i in range(n): vm.write(st,buf,i,1,norm(z3.simplify(z3.Extract(8*(n-i)-1,8*(n-i)-8,whole))))
            U.on_model=lambda ev,ob,w=whole:('field',name,ev(w).as_long().to_bytes(n,'big'))
            sign=z3.Concat(s,z3.BitVecVal(0,tot-1))
            if k==fb: want=sign
            else:
                # value = 1.m * 2^(4*(e-64)-k-1)
                x=4*(z3.ZeroExt(24,e)-64)-k-1+bias
                rest=z3.Extract(fb-k-2,0,F_) if k<fb-1 else None; w=fb-k-1
                m=z3.BitVecVal(0,mb) if rest is None else rest if w==mb else z3.Concat(rest,z3.BitVecVal(0,mb-w)) if w<mb else z3.Extract(w-1,w-mb,rest)
                big=z3.Concat(z3.BitVecVal(top-1,tot-1-mb),z3.BitVecVal((1<<mb)-1,mb)); mag=z3.If(x>=top,big,z3.If(x<=0,z3.BitVecVal(0,tot-1),z3.Concat(z3.Extract(tot-2-mb,0,x),m))); want=z3.Concat(s,mag)
            for r in U.rets(vm,vm.call_fn(fn(prog,r'HRI_machine::%s\('%name),[Ptr(o,0),Ptr(buf,0)],st),what='%s, %d leading zero bits'%(name,k)):
                g=fp_bits(r.val,n if not dbl else 8)
                g=bv(g,tot)
                if z3.simplify(g).eq(z3.simplify(want)): U.ok('%s: the number stored'%name)
                else: vm.oblige(r.st,g==want,'%s of a fraction with %d leading zero bits is the hexadecimal number stored, truncated'%(name,k))
    return f
# ---------------------------------------------------------------- subframes: every field from its documented position
LABEL=[('number_of_frames_in_subframe',0,'i2'),('total_number_of_subframes',2,'i2'),('current_subframe_number',4,'i2'),('image_line_number',6,'i2'),('image_number_from_mission_start',8,'i4')]+[(n,12+i,'u1') for i,n in enumerate('format_indicator VISs_indicator VISn_indicator IR_indicator WV_indicator grid_indicator encryption_indicator scan_direction_indicator key_number_VIS_s_indicator key_number_VIS_n_indicator key_number_IR_indicator key_number_WV_indicator'.split())]
PRED=[('A_format',12,0,255),('B_format',12,255,255),('X_format',12,15,255),('VISs_present',13,None,255),('VISn_present',14,None,255),('IR_present',15,None,255),('WV_present',16,None,255),('grid_present',17,None,255),('VISs_1st_half_present',13,240,255),('VISs_2nd_half_present',13,15,255),('VISn_1st_half_present',14,240,255),('VISn_2nd_half_present',14,15,255),('VISs_reduced',13,255,255),('VISn_reduced',14,255,255),('VISs_encrypted',18,None,8),('VISn_encrypted',18,None,4),('IR_encrypted',18,None,2),('WV_encrypted',18,None,1),('scan_SN_EW',19,0,255),('scan_NS_EW',19,240,255),('scan_SN_WE',19,15,255),('scan_NS_WE',19,255,255)]
def _seq(prefix,names,off,kind,w): return [(prefix+'.'+n,off+w*i,kind) for i,n in enumerate(names.split())]
F6,F3,F5,FF5,FF3,D3,D2='r4_from_char6','r4_from_char3','r4_from_char5','r4f_from_char5','r4f_from_char3','i2_from_char3','i2_from_char2'
INTERP=[('cal.'+n,o,k) for n,o,k in(('bbc1ir',0,F6),('bbsd1i',6,F3),('bbc1wv',9,F6),('bbsd1w',15,F3),('bb1t',18,F5),('bb2t',23,F5),('bbc2ir',28,F6),('bbsd2i',34,F3),('bbc2wv',37,F6),('bbsd2w',43,F3),('time1_day',46,D3),('time1_slot',49,D2),('calir',51,FF5),('irspc',56,FF3),('time2_day',59,D3),('time2_slot',62,D2),('calwv',64,FF5),('wvspc',69,FF3),('time3_day',72,D3),('time3_slot',75,D2),('ir_gain',92,D2),('wv_gain',94,D2),('v1_gain',96,D2),('v2_gain',98,D2))]
INTERP+=_seq('oper','degsra degsde degnra degnde finatt_x finatt_y finatt_z farade_1 farade_2',104,'r8',8)+[('oper.nrslot',176,'i4'),('oper.spndur',180,'r4')]+_seq('oper','flecl fldec flman flmode flir1 flir2 flwv1 flwv2 flvis1 flvis2 flvis3 flvis4',184,'b1',1)
INTERP+=_seq('imag',' '.join('imstat_%d'%i for i in range(1,12)),232,'b1',1)+_seq('imag',' '.join('limhor_%d'%i for i in range(1,13)),248,'i2',2)+_seq('imag','satdis sorbof_x sorbof_y sorbof_z norbof_x norbof_y norbof_z',272,'r8',8)+_seq('imag','xddifm yddifm xscm yscm',328,'r4',4)+_seq('imag','conds_1 conds_2 conds_3 conds_4',344,'b1',1)
INTERP+=_seq('imag','lowdyn_ir lowdyn_v1 lowdyn_v2 lowdyn_wv higdyn_ir higdyn_v1 higdyn_v2 higdyn_wv',348,'i2',2)+_seq('imag','mvis1 mvis2 snnom_ir snnom_v1 snnom_v2 snnom_wv',364,'r4',4)+[('imag.snnlin',388,'i4')]+_seq('imag',' '.join('%s_%s'%(a,b) for a in('snrep','snrwp','swmnep','swmnwp') for b in('ir','v1','v2','wv')),392,'r4',4)+_seq('imag',' '.join('%s_%s'%(a,b) for a in('snmxep','snmxwp') for b in('ir','v1','v2','wv')),456,'i2',2)
MESG=(560,800); KINDS={'i2':('i2_from_buff',2),'i4':('i4_from_buff',4),'r4':('r4_from_buff',4),'r8':('r8_from_buff',8)}
for k in DEC: KINDS[k]=(k,len(DEC[k]))
def prim(k,bs):
    """ghost: the value the numeric field has, as a function of its bytes (the functions themselves: units above)"""
    import z3
    name,n=KINDS[k]; bits={'h':16,'i':32,'f':32,'d':64}[OUT[name]]
    if k=='i2' or k=='i4': return z3.Concat(*bs)
    return z3.Function('HRI_'+name,*([z3.BitVecSort(8)]*n+[z3.BitVecSort(bits)]))(*bs)
def machine_contracts(vm,prog):
    import z3
    from sym import bv, bits_fp, off_add, Ptr
    def mk(k):
        name,n=KINDS[k]
        def h(vm_,st,a,I):
            q=vm_.resolve(st,a[1])[0][1]; vm_.chk(st,True,q,n,'%s reads %d bytes'%(name,n))
            v=prim(k,[bv(vm_.read(st,q.obj,off_add(q.off,i),1),8) for i in range(n)])
            return bits_fp(v,4 if OUT[name]=='f' else 8) if OUT[name] in 'fd' else v
        return h
    for k,(name,n) in KINDS.items():
        for m,d in prog.dem.items():
            if re.match(r'HRI_machine::%s\('%name,d): vm.contracts[m]=mk(k)
def read_at(vm,st,o,off,kind):
    """the member's bit pattern, its width, and the ghost bits wanted"""
    w={'i2':2,'i4':4,'r4':4,'r8':8,'u1':1,'b1':1}.get(kind) or {'h':2,'f':4}[OUT[kind]]
    return w
def unit_fields(cls,src,table,nbytes,pre=None,extra=None):
    def f(U):
        import z3
        from sym import State,Ptr,bv,fp_bits,norm
        prog=U.prog([build.emit_ir(D+src)]); vm=U.vm(prog); st=State(); machine_contracts(vm,prog); arr=z3.Array('in',z3.BitVecSort(64),z3.BitVecSort(8)); buf=vm.new(st,'in',nbytes,'heap',arr); o=vm.new(st,'this',lay()[cls][0],'heap',z3.Array('this',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
        B=lambda i:z3.Select(arr,z3.BitVecVal(i,64)); U.on_model=lambda ev,ob:('record',cls,bytes(ev(B(i)).as_long() for i in range(nbytes)))
        if pre: pre(U,vm,prog,st,B)
        for r in U.rets(vm,vm.call_fn(fn(prog,r'%s::readfrom\('%cls),[Ptr(o,0),Ptr(buf,0)],st),what='readfrom'):
            for m,off,k in table:
                a=moff(cls,m); w=read_at(vm,r.st,o,a,k); got=vm.read(r.st,o,a,w)
                want=z3.If(B(off)!=0,z3.BitVecVal(1,8),z3.BitVecVal(0,8)) if k=='b1' else B(off) if k=='u1' else prim(k,[B(off+i) for i in range(KINDS[k][1])])
                g=fp_bits(got,w) if not isinstance(got,int) and z3.is_fp(got) else got
                if U.equal(vm,r.st,g,want,'%s is the field at byte %d'%(m,off),8*w): U.ok('field')
            if extra: extra(U,vm,prog,r.st,o,B)
    return f
def mesg_extra(U,vm,prog,st,o,B):
    import z3
    from sym import bv,norm
    a=moff('HRI_subframe_interpretation','mesg.admin_message'); ok=0
    for k in range(MESG[1]):
        if U.equal(vm,st,vm.read(st,o,a+k,1),B(MESG[0]+k),'the administrative message is the text at byte %d'%MESG[0],8): ok+=1
    U.ok('administrative message',ok)
def label_extra(U,vm,prog,st,o,B):
    import z3
    from sym import Ptr,bv
    for n,at,val,mask in PRED:
        for r in U.rets(vm,vm.call_fn(fn(prog,r'HRI_subframe_label::is_%s\('%n),[Ptr(o,0)],st.fork()),what='is_'+n):
            want=(B(at)&mask)!=0 if val is None else B(at)==val
            vm.oblige(r.st,(bv(r.val,1)==1)==want,'is_%s() says so'%n)
def unit_keys(U):
    import z3
    from sym import State,Ptr,bv,norm,fresh
    cls='HRI_subframe_keyslot'; prog=U.prog([build.emit_ir(D+'HRI_subframe_keyslot.cpp')]); vm=U.vm(prog); st=State(); arr=z3.Array('in',z3.BitVecSort(64),z3.BitVecSort(8)); buf=vm.new(st,'in',1440,'heap',arr); o=vm.new(st,'this',lay()[cls][0],'heap',z3.Array('this',z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
    E=lay()[cls][0]//120; B=lambda i:z3.Select(arr,z3.simplify(i)); U.on_model=lambda ev,ob:('record',cls,bytes(ev(z3.Select(arr,z3.BitVecVal(i,64))).as_long() for i in range(1440)))
    ko={n:moff('KsProbe','k.'+n) for n in('usage','key_number','station_number','message_key')}
    for r in U.rets(vm,vm.call_fn(fn(prog,r'%s::readfrom\('%cls),[Ptr(o,0),Ptr(buf,0)],st),what='readfrom'):
        for i in range(120):
            at=lambda n,w: bv(vm.read(r.st,o,E*i+ko[n[0]]+(n[1] if len(n)>1 else 0),w),8*w)
            used=B(z3.BitVecVal(12*i,64))!=0; z=lambda e,w: z3.If(used,e,z3.BitVecVal(0,w))
            if U.equal(vm,r.st,at(('usage',),1),z3.If(used,z3.BitVecVal(1,8),z3.BitVecVal(0,8)),'key %d is in use when its first byte is not zero'%i,8): U.ok('usage')
            if U.equal(vm,r.st,at(('key_number',),2),z(z3.ZeroExt(8,B(z3.BitVecVal(12*i+1,64))),16),'key number of slot %d'%i,16): U.ok('number')
            for j in range(8):
                if U.equal(vm,r.st,at(('message_key',j),1),z(B(z3.BitVecVal(12*i+4+j,64)),8),'byte %d of key %d'%(j,i),8): U.ok('key byte')
# ---------------------------------------------------------------- identification
def unit_ident(sat0,sat1):
    """sat0,sat1: ranges of the two satellite bytes"""
    def f(U):
        import z3, libc, contracts
        from sym import State,Ptr,bv,norm
        cls='HRI_subframe_identification'; prog=U.prog([build.emit_ir(D+'HRI_subframe_identification.cpp')]); vm=U.vm(prog); st=State(); machine_contracts(vm,prog); libc.install(vm); contracts.opaque_strings(vm,prog); vm.models['asctime']=lambda vm_,st_,a,I: seen_(vm_,st_,a)
        arr=z3.Array('in',z3.BitVecSort(64),z3.BitVecSort(8)); buf=vm.new(st,'in',32,'heap',arr); o=vm.new(st,'this',lay()[cls][0],'heap',z3.Array('this',z3.BitVecSort(64),z3.BitVecSort(8)),const=False); B=lambda i:z3.Select(arr,z3.BitVecVal(i,64)); be=lambda i:z3.Concat(B(i),B(i+1))
        U.on_model=lambda ev,ob:('record',cls,bytes(ev(B(i)).as_long() for i in range(32)))
        st.assume(z3.And(z3.UGE(B(0),sat0[0]),z3.ULE(B(0),sat0[1]),z3.UGE(B(1),sat1[0]),z3.ULE(B(1),sat1[1])))
        st.assume(z3.And(be(2)>=1970,be(2)<=2100,be(4)>=1,be(4)<=366,be(6)>=0,be(6)<=2359))
        seen=[]
        def seen_(vm_,st_,a):
            t=vm_.new(st_,'asctime text',26,'heap',z3.Array('asctime',z3.BitVecSort(64),z3.BitVecSort(8))); return Ptr(t,0)
        # the first of January, noon local time, of a year: within twelve hours of noon UTC
        Y=z3.Function('day_of_year_start',z3.BitVecSort(32),z3.BitVecSort(64)); tz=z3.BitVec('tz',64)
        def mktime(vm_,st_,a,I):
            q=vm_.resolve(st_,a[0])[0][1]; g=lambda k: bv(vm_.read(st_,q.obj,q.off+4*k,4),32)
            vm_.oblige(st_,z3.And(g(0)==0,g(1)==0,g(2)==12,g(3)==1,g(4)==0),'the day is counted from noon of the first of January'); vm_.assumptions.add('mktime of noon of January 1st is that day\'s noon UTC give or take less than twelve hours')
            d=Y(g(5)); st_.assume(z3.And(d>=0,d<=50000,tz>-43200,tz<43200)); return d*86400+43200-tz
        vm.models['mktime']=mktime
        def gmtime(vm_,st_,a,I):
            q=vm_.resolve(st_,a[0])[0][1]; t=bv(vm_.read(st_,q.obj,q.off,8),64); day=Y(z3.SignExt(16,be(2))-1900)+z3.SignExt(48,be(4))-1
            vm_.oblige(st_,z3.And(t-day*86400>=0,t-day*86400<86400),'the date asked for is day julian_day of the year')
            ob=vm_.new(st_,'tm',56,'heap','zero',const=False); mon=z3.BitVec('mon',32); md=z3.BitVec('mday',32); st_.assume(z3.And(mon>=0,mon<=11,md>=1,md<=31)); vm_.write(st_,ob,16,4,mon); vm_.write(st_,ob,12,4,md); return Ptr(ob,0)
        vm.models['gmtime']=gmtime
        refused=not(sat0[0]==212 or (sat0[1]==0 and sat1[1]<=3))
        outs=vm.call_fn(fn(prog,cls+r'::readfrom\('),[Ptr(o,0),Ptr(buf,0)],st)
        for r in U.rets(vm,outs,allow=('throw',) if refused else ('ret',),what='readfrom'):
            if refused: continue
            s=r.st; R=lambda n,w: vm.read(s,o,moff(cls,n),w)
            hh=z3.SignExt(16,be(6))/100
            for n,w,want in(('year',4,z3.SignExt(16,be(2))),('julian_day',2,be(4)),('nominal_time',2,be(6)),('column_offset',2,be(20)),('line_offset',2,be(22)),('month',4,z3.BitVec('mon',32)+1),('day',4,z3.BitVec('mday',32)),('hour',4,hh),('minute',4,z3.SignExt(16,be(6))-hh*100)):
                if U.equal(vm,s,R(n,w),want,'%s'%n,8*w): U.ok(n)
            lon=R('longitude',8); from sym import fpz
            vm.oblige(s,fpz(lon,8)==z3.fpSignedToFP(z3.RNE(),be(24),z3.Float64()),'longitude is the number at byte 24')
            mid=z3.If(B(0)==212,z3.If(z3.UGT(B(1),240),z3.ZeroExt(24,B(1))-240,z3.BitVecVal(1,32)),z3.BitVecVal(-1,32))
            if U.equal(vm,s,R('meteosat_id',4),mid,'the number of the Meteosat, or -1',32): U.ok('id')
            for n,c in(('Meteosat',B(0)!=0),('GOES_E',z3.And(B(0)==0,B(1)==0)),('GOES_W',z3.And(B(0)==0,B(1)==1)),('GMS',z3.And(B(0)==0,B(1)==2)),('GOMS',z3.And(B(0)==0,B(1)==3))):
                for q in U.rets(vm,vm.call_fn(fn(prog,cls+r'::is_%s\('%n),[Ptr(o,0)],s.fork()),what='is_'+n): vm.oblige(q.st,(bv(q.val,1)==1)==c,'is_%s() says so'%n)
    return f

# ---------------------------------------------------------------- concrete values
def field_value(kind,b):
    """text of a field as the harness prints it: ints in decimal, reals as bit patterns; None where only the exact decimal is known"""
    if kind=='u1': return str(b[0])
    if kind=='b1': return str(int(b[0]!=0))
    name,n=KINDS[kind]; v=value(name,b[:n]); return v
def width(kind): return 1 if kind in('u1','b1') else KINDS[kind][1]
def compare(kind,b,got):
    """does the harness' text for a field agree with the encoding"""
    want=field_value(kind,b)
    if isinstance(want,str): return got==want,want
    name=KINDS[kind][0]
    if name in DEC and name[0]=='r': return close(struct.unpack('<f',struct.pack('<I',int(got,16)))[0],want),str(float(want))
    if name[0]=='r': return int(got,16)==want,'%x'%want
    return int(got)==want or (int(got)-want)%65536==0 and name!='i4_from_buff' and int(got)>=0 or name=='i4_from_buff' and (int(got)-want)%(1<<32)==0,str(want)
def rnd_field(rnd,kind):
    if kind in('u1',): return bytes([rnd.choice([0,15,240,255,rnd.randrange(256)])])
    if kind=='b1': return bytes([rnd.choice([0,1,255,128])])
    name,n=KINDS[kind]
    if name in DEC: return bytes(rnd.choice([32,48,49,57]+[48+rnd.randrange(10)]*4) for _ in range(n))
    if name[0]=='i': return rnd.randbytes(n) if rnd.random()<.8 else rnd.choice([b'\xff'*n,b'\0'*n,b'\x80'+b'\0'*(n-1),b'\x7f'+b'\xff'*(n-1)])
    e=rnd.choice([rnd.randrange(128),64+rnd.randrange(-6,7),rnd.choice([30,31,32,33,96,97,98])]); f=rnd.getrandbits(8*(n-1))>>rnd.choice([0,0,1,3,4,7,12,20,rnd.randrange(8*(n-1)+1)])
    return bytes([e|rnd.choice([0,128])])+f.to_bytes(n-1,'big')
REC={'HRI_subframe_label':(24,LABEL),'HRI_subframe_interpretation':(1360,INTERP)}
def rnd_record(rnd,cls):
    n,T=REC[cls]; b=bytearray(rnd.randbytes(n))
    for m,o,k in T: v=rnd_field(rnd,k); b[o:o+len(v)]=v
    return bytes(b)
def ident_expect(b):
    """(ok, fields) of an identification subframe"""
    import datetime
    be=lambda i:int.from_bytes(b[i:i+2],'big',signed=True); u=lambda v:v%65536
    if b[0]==212: mid=b[1]-240 if b[1]>240 else 1; name='METEOSAT'+('-%d'%mid if b[1]>240 else '')
    elif b[0]==0 and b[1]<4: mid=-1; name=('GOES-E','GOES-W','GMS','GOMS')[b[1]]
    else: return 'THROW'
    d=datetime.date(be(2),1,1)+datetime.timedelta(be(4)-1)
    return 'ident %s %d %d %d %d %d %d %d %d %d %d %d %d%d%d%d%d'%(name,mid,be(2),u(be(4)),u(be(6)),d.month,d.day,be(6)//100,be(6)%100,u(be(20)),u(be(22)),be(24),b[0]!=0,b[:2]==b'\0\0',b[:2]==b'\0\1',b[:2]==b'\0\2',b[:2]==b'\0\3')
def rnd_ident(rnd,sat=None):
    b=bytearray(rnd.randbytes(32)); b[0:2]=sat or rnd.choice([bytes([212,240+rnd.randrange(1,16)]),bytes([212,rnd.randrange(241)]),bytes([0,rnd.randrange(4)])])
    y=rnd.choice([1996,2000,2004,2006,1999,2100]); leap=y%4==0 and (y%100!=0 or y%400==0)
    b[2:4]=y.to_bytes(2,'big'); b[4:6]=rnd.choice([1,31,32,59,60,61,365,366 if leap else 365,rnd.randrange(1,366)]).to_bytes(2,'big'); b[6:8]=(rnd.randrange(24)*100+rnd.randrange(60)).to_bytes(2,'big'); return bytes(b)
def keys_expect(b):
    o=[]
    for i in range(120):
        s=b[12*i:12*i+12]
        if s[0]: o.append('%d:%d:%s'%(i,s[1],s[4:12].hex()))
    return 'keys '+' '.join(o)
# ================================================================ C17: images
SATS=['METEOSAT','GOES_E','GOES_W','GMS','INDOX']; FORMATS=['A','B','X']; BANDS=['IR','WV','VIS','VH']
# format, band -> pixels per line, lines, sampling, units, long name
SHAPE={('A','IR'):(2500,2500,1.0),('A','WV'):(2500,2500,1.0),('A','VH'):(2500,2500,1.0),('A','VIS'):(5000,5000,1.0),('B','IR'):(1250,625,2.0),('B','WV'):(1250,625,2.0),('B','VIS'):(2500,1250,1.0),('X','IR'):(1250,1250,2.0),('X','WV'):(1250,1250,2.0),('X','VH'):(1250,1250,2.0)}
UNIT={'IR':'K','WV':'K','VIS':'%','VH':'%'}
def longname(f,b): return '%sFormat_%sBand'%(f,b)
def img_vm(U):
    import contracts
    from sym import Ptr
    prog=U.prog([build.emit_ir(D+'HRI_image.cpp')]); vm=U.vm(prog)
    def assign(vm_,st,a,I):
        q=vm_.resolve(st,a[0])[0][1]; p=a[1]; vm_.write(st,q.obj,q.off,8,p); return a[0]
    for nm,d in prog.dem.items():
        if re.match(r'std::(__cxx11::)?basic_string<char.*>::(operator=|assign)(\[abi:cxx11\])?\(char const\*\)',d): vm.contracts[nm]=assign
    contracts.opaque_strings(vm,prog); return prog,vm
def img_new(U,vm,prog,st,s,f,b,name='img'):
    import z3
    from sym import Ptr
    o=vm.new(st,name,lay()['HRI_image'][0],'heap',z3.Array(name,z3.BitVecSort(64),z3.BitVecSort(8)),const=False)
    return o,vm.call_fn(fn(prog,r'HRI_image::HRI_image\(HRI_image_satellite'),[Ptr(o,0),s,f,b],st)
def literal(vm,st,o,m):
    import models
    from sym import isptr, Unsupported
    p=vm.read(st,o,moff('HRI_image',m),8)
    if not isptr(p): raise Unsupported('%s is not set from a literal'%m)
    b=models.cstr_bytes(vm,st,p)
    if b is None: raise Unsupported('%s is not set from a literal'%m)
    return b.decode('latin1')
def shape_ok(U,vm,st,o,f,b,what):
    import z3
    from sym import bv,fpz
    np,nl,sm=SHAPE[f,b]
    for m,v in(('npixels',np),('nlines',nl)): vm.oblige(st,bv(vm.read(st,o,moff('HRI_image',m),4),32)==v,'%s: %s is %d'%(what,m,v))
    for m in('samplex','sampley'): vm.oblige(st,fpz(vm.read(st,o,moff('HRI_image',m),4),4)==z3.FPVal(sm,z3.Float32()),'%s: %s is %g'%(what,m,sm))
    U.result('%s: units are %s'%(what,UNIT[b]),literal(vm,st,o,'units')==UNIT[b]); U.result('%s: long name'%what,literal(vm,st,o,'long_name')==longname(f,b))
def unit_shape(U):
    """every satellite, format and band: the documented shape or a refusal; changing the format of an image gives the new shape and frees the old one"""
    import z3
    from sym import State,Ptr,bv
    for fi,f in enumerate(FORMATS+['?']):
        for bi,b in enumerate(BANDS+['?']):
            prog,vm=img_vm(U); s=z3.BitVec('sat',32); st=State(); st.assume(z3.ULE(s,4)); U.on_model=lambda ev,ob,f=f,b=b:('shape',f,b)
            o,outs=img_new(U,vm,prog,st,s,fi,bi); ok=(f,b) in SHAPE
            for r in U.rets(vm,outs,allow=('ret',) if ok else ('throw',),what='%s format, band %s'%(f,b)):
                if not ok: continue
                shape_ok(U,vm,r.st,o,f,b,'%s %s'%(f,b)); U.ok('every field'); old=vm.read(r.st,o,moff('HRI_image','data'),8)
                for q in U.rets(vm,vm.call_fn(fn(prog,r'HRI_image::get_image_band\('),[Ptr(o,0)],r.st.fork()),what='band'): vm.oblige(q.st,bv(q.val,32)==bi,'the band is the one asked for')
                # another format afterwards
                f2,b2=('B','VIS') if (f,b)!=('B','VIS') else ('A','IR')
                for q in U.rets(vm,vm.call_fn(fn(prog,r'HRI_image::set_format_band\('),[Ptr(o,0),s,FORMATS.index(f2),BANDS.index(b2)],r.st),what='set_format_band'):
                    shape_ok(U,vm,q.st,o,f2,b2,'%s %s changed to %s %s'%(f,b,f2,b2)); U.result('the pixels of the previous format are freed',old.obj.id in q.st.freed if hasattr(q.st,'freed') else True)
def unit_store(f,b):
    """the four accessors against the ghost image: an array of nlines*npixels pixels"""
    def g(U):
        import z3
        from sym import State,Ptr,bv,norm,Content
        np,nl,sm=SHAPE[f,b]; N=np*nl
        def begin():
            prog,vm=img_vm(U); s=z3.BitVec('sat',32); st=State(); st.assume(z3.ULE(s,4)); o,outs=img_new(U,vm,prog,st,s,FORMATS.index(f),BANDS.index(b)); r=U.rets(vm,outs,what='HRI_image()')
            from sym import Unsupported
            if len(r)!=1: raise Unsupported('construction in several ways')
            st=r[0].st; im=U.rets(vm,vm.call_fn(fn(prog,r'HRI_image::get_image\(\)'),[Ptr(o,0)],st),what='get_image')[0]; p=im.val; st=im.st
            U.result('the image has room for %d pixels'%N,p.obj.size==N and p.off==0); old=z3.Array('old',z3.BitVecSort(64),z3.BitVecSort(8)); st.mem[p.obj.id]=Content(old,None,st.tok)
            return prog,vm,st,o,p.obj,old
        L=z3.BitVec('line',32); P=z3.BitVec('pixel',32); k=z3.BitVec('k',64); ki=z3.BitVec('kl',64); inside=z3.And(L>=0,L<nl); z64=lambda x:z3.ZeroExt(32,x)
        at=lambda vm,st,ob,i: bv(vm.read(st,ob,norm(z3.simplify(i)),1),8)
        def same(vm,st,ob,old,what): x=st.fork(); x.assume(z3.ULT(k,N)); vm.oblige(x,at(vm,x,ob,k)==z3.Select(old,k),what)
        # get_pixel
        prog,vm,st,o,ob,old=begin(); U.on_model=lambda ev,o_:('pixel',f,b,ev(L).as_signed_long(),ev(P).as_signed_long())
        for c,allow in((z3.And(inside,P>=0,P<np),'ret'),(z3.Not(z3.And(inside,P>=0,P<np)),'throw')):
            s=st.fork(); s.assume(c)
            for r in U.rets(vm,vm.call_fn(fn(prog,r'HRI_image::get_pixel\('),[Ptr(o,0),L,P],s),allow=(allow,),what='get_pixel'):
                if allow=='ret': vm.oblige(r.st,bv(r.val,8)==z3.Select(old,z64(L)*np+z64(P)),'get_pixel() is the pixel stored'); same(vm,r.st,ob,old,'get_pixel() changes nothing')
        # get_line
        U.on_model=lambda ev,o_:('line',f,b,ev(L).as_signed_long())
        for c,allow in((inside,'ret'),(z3.Not(inside),'throw')):
            s=st.fork(); s.assume(c)
            for r in U.rets(vm,vm.call_fn(fn(prog,r'HRI_image::get_line\('),[Ptr(o,0),L],s),allow=(allow,),what='get_line'):
                if allow!='ret': continue
                q=r.val; same(vm,r.st,ob,old,'get_line() changes nothing'); x=r.st.fork(); x.assume(z3.ULT(k,np)); qo=norm(z3.simplify(bv(q.off,64)+k))
                vm.chk(x,True,Ptr(q.obj,qo),1,'line returned'); vm.oblige(x,at(vm,x,q.obj,bv(q.off,64)+k)==z3.Select(old,z64(L)*np+k),'get_line() returns the pixels of the line')
        # put_line and put_halfline
        n=z3.BitVec('n',32)
        for m,extra,sz,base in(('put_line',[],np,0),('put_halfline',[1],np//2,0),('put_halfline',[0],np//2,np//2)):
            U.on_model=lambda ev,o_,m=m,extra=extra:('put',f,b,m,extra,ev(L).as_signed_long(),ev(n).as_signed_long())
            s=st.fork(); s.assume(inside); src=vm.new(s,'src',sz,'heap',z3.Array('src',z3.BitVecSort(64),z3.BitVecSort(8)))
            for r in U.rets(vm,vm.call_fn(fn(prog,r'HRI_image::%s\('%m),[Ptr(o,0),Ptr(src,0),sz,L]+extra,s),what=m):
                a=z64(L)*np+base; x=r.st.fork(); x.assume(z3.ULT(k,sz)); vm.oblige(x,at(vm,x,ob,a+k)==z3.Select(z3.Array('src',z3.BitVecSort(64),z3.BitVecSort(8)),k),'%s() stores the pixels given'%m)
                x=r.st.fork(); x.assume(z3.And(z3.ULT(k,N),z3.Or(z3.ULT(k,a),z3.UGE(k,a+sz)))); vm.oblige(x,at(vm,x,ob,k)==z3.Select(old,k),'%s() changes no other pixel'%m)
            s=st.fork(); s.assume(z3.Or(z3.Not(inside),n!=sz)); src=vm.new(s,'src',0,'heap',None)
            U.rets(vm,vm.call_fn(fn(prog,r'HRI_image::%s\('%m),[Ptr(o,0),Ptr(src,0),n,L]+extra,s),allow=('throw',),what='%s of a wrong size or line'%m)
    return g
# ---------------------------------------------------------------- calibration
PL={('METEOSAT','IR'):(1255.5465,6.9618),('METEOSAT','WV'):(2233.4882,9.2477),('INDOX','IR'):(1272.2000,6.7348),('INDOX','WV'):(2264.9000,9.1124)}
DEFAULT={('INDOX','IR'):(0.074,5.0),('INDOX','WV'):(0.0078,6.0)}
def gms_ir():
    """the table published for GMS (JMA), in the layout of the source"""
    t=[l for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'gms_ir.txt'))]; return [float(x) for l in t for x in l.split()]
import os
def cal_expect(sat,band,calibrated,cc,sc):
    """256 values"""
    if sat!='METEOSAT' and (sat,band)==('GMS','IR'): return gms_ir()
    if (sat,band)==('GMS','VH'): return [round(((i//4)/63.0)**2,6) for i in range(256)]
    if (sat,band) in PL:
        if not calibrated:
            if (sat,band) not in DEFAULT: return [1.0]*256
            cc,sc=DEFAULT[sat,band]
        B,A=PL[sat,band]
        return [0.0 if i<sc or cc*(i-sc)==0 else -B/(math.log(cc*(i-sc))-A) for i in range(256)]
    if (sat=='METEOSAT' and band in('VIS','VH')) or (band=='VH' and sat in('GOES_E','GOES_W','INDOX')): return [100.0*i/255 for i in range(256)]
    if (sat,band)==('GOES_E','IR'): return [163.0+i if i<79 else (i+405)/2 for i in range(256)]
    if (sat,band)==('GOES_W','IR'): return [i/255*(318.1-159.1)+159.1 for i in range(256)]
    return [1.0]*256
def unit_cal(sat,band,calibrated):
    def g(U):
        import z3
        from sym import State,Ptr,bv,fpz,fmath,f32r,Unsupported
        prog,vm=img_vm(U); st=State(); arr=z3.Array('img',z3.BitVecSort(64),z3.BitVecSort(8)); o=vm.new(st,'img',lay()['HRI_image'][0],'heap',arr,const=False); W=lambda m,n,v: vm.write(st,o,moff('HRI_image',m),n,v)
        W('sat',4,SATS.index(sat)); W('band',4,BANDS.index(band)); W('calibrated',1,0)
        cc=z3.FP('cc',z3.Float32()); sc=z3.FP('sc',z3.Float32()); fin=lambda x: z3.Not(z3.Or(z3.fpIsNaN(x),z3.fpIsInf(x)))
        fv=lambda x: struct.unpack('<f',struct.pack('<I',x.as_long()))[0]
        U.on_model=lambda ev,ob:('cal',sat,band,calibrated,fv(ev(z3.fpToIEEEBV(cc))),fv(ev(z3.fpToIEEEBV(sc))))
        if calibrated:
            st.assume(z3.And(fin(cc),fin(sc),cc>0,sc>=0,sc<=255))
            c=vm.new(st,'coef',8,'heap','zero',const=False); vm.write(st,c,0,4,cc); vm.write(st,c,4,4,sc)
            st=U.rets(vm,vm.call_fn(fn(prog,r'HRI_image::set_calibration\('),[Ptr(o,0),Ptr(c,0)],st),what='set_calibration')[0].st
        for r in U.rets(vm,vm.call_fn(fn(prog,r'HRI_image::get_calibration\('),[Ptr(o,0)],st),what='get_calibration'):
            p=r.val; ref=(sat,band) in PL and (calibrated or (sat,band) in DEFAULT); n=0
            U.result('256 values are returned',p.obj is o and isinstance(p.off,int) and p.off+1024<=o.size)
            ref=ref and calibrated; want=None if ref else cal_expect(sat,band,calibrated,0,0)
            for i in range(256):
                got=vm.read(r.st,p.obj,p.off+4*i,4); gt=fpz(got,4)
                if not ref:
                    from sym import fconc
                    v=got if isinstance(got,float) else fconc(z3.simplify(gt)); 
                    if v is None: v=fconc(z3.simplify(z3.substitute(z3.simplify(gt),*[(fpz(fmath('log',[z3.FPVal(0.0,z)],k),k),z3.fpMinusInfinity(z)) for z,k in((z3.Float32(),4),(z3.Float64(),8))])))
                    if v is None: raise Unsupported('value %r is not known'%gt)
                    tol=1e-6*max(1,abs(want[i])) if (sat,band)!=('GMS','VH') else 1.1e-6
                    U.result('count %d of %s %s'%(i,sat,band),abs(v-want[i])<=tol,detail='%r instead of %r'%(v,want[i])); n+=1; continue
                B,A=PL[sat,band]; c_,s_=(fpz(cc,4),fpz(sc,4)) if calibrated else tuple(z3.FPVal(f32r(x),z3.Float32()) for x in DEFAULT[sat,band])
                fi=z3.FPVal(float(i),z3.Float32()); RN=z3.RNE(); F64=z3.Float64()
                def planck(rad): return z3.fpToFP(RN,z3.fpDiv(RN,z3.FPVal(-B,F64),z3.fpSub(RN,z3.fpToFP(RN,fpz(fmath('log',[rad],4),4),F64),z3.FPVal(A,F64))),z3.Float32())
                below=z3.fpLT(fi,s_); rad=z3.fpMul(RN,c_,z3.fpSub(RN,fi,s_))
                for cond,w in((below,z3.FPVal(0.0,z3.Float32())),(z3.Not(below),planck(z3.simplify(rad)))):
                    x=r.st.fork(); x.assume(cond)
                    if z3.is_false(z3.simplify(cond)): continue
                    g_=z3.simplify(z3.substitute(z3.simplify(gt),(z3.simplify(below),z3.BoolVal(cond is below)))) if not z3.is_true(z3.simplify(cond)) else gt
                    z0=z3.FPVal(0.0,z3.Float32())
                    for n_ in(4,8):
                        z_=z3.FPVal(0.0,z3.Float32() if n_==4 else F64); g_=z3.substitute(g_,(fpz(fmath('log',[z_],n_),n_),z3.fpMinusInfinity(z3.Float32() if n_==4 else F64)))
                    g_=z3.simplify(g_)
                    vm.oblige(x,g_==w,'%s %s: the temperature of count %d is %s'%(sat,band,i,'0 below the space count' if cond is below else '-%s/(log(cal*(count-space))-%s)'%(B,A)))
    return g
def gen(seed,n):
    x=(seed*2654435761+12345)&0xffffffff; o=bytearray()
    for _ in range(n): x=(x*1664525+1013904223)&0xffffffff; o.append(x>>24)
    return bytes(o)
def fnv(b):
    h=2166136261
    for c in b: h=((h^c)*16777619)&0xffffffff
    return h
class Image:
    def __init__(s,f,b): s.np,s.nl,_=SHAPE[f,b]; s.d=bytearray(s.np*s.nl)
    def run(s,op):
        k=op[0]
        if k=='P':
            _,a,n,r=op
            if n!=s.np or not 0<=a<s.nl: return 'THROW'
            s.d[a*s.np:(a+1)*s.np]=gen(r,n); return 'ok'
        if k=='H':
            _,a,n,r,first=op
            if n!=s.np//2 or not 0<=a<s.nl: return 'THROW'
            p=a*s.np+(0 if first else s.np//2); s.d[p:p+n]=gen(r,n); return 'ok'
        if k=='L': return str(fnv(s.d[op[1]*s.np:(op[1]+1)*s.np])) if 0<=op[1]<s.nl else 'THROW'
        if k=='X': return str(s.d[op[1]*s.np+op[2]]) if 0<=op[1]<s.nl and 0<=op[2]<s.np else 'THROW'
def rnd_ops(rnd,f,b,n):
    np,nl,_=SHAPE[f,b]; line=lambda: rnd.choice([0,1,nl-1,nl//2,rnd.randrange(nl),rnd.randrange(nl),-1,nl,1<<30,-(1<<31)] if rnd.random()<.4 else [0,1,2,nl-1,nl-2]); o=[]
    for _ in range(n):
        k=rnd.choice('PHHLLXX'); a=line()
        if k=='P': o.append(('P',a,rnd.choice([np]*8+[0,np-1,np+1,np//2]),rnd.randrange(1<<30)))
        elif k=='H': o.append(('H',a,rnd.choice([np//2]*8+[0,np,np//2-1,np//2+1]),rnd.randrange(1<<30),rnd.randrange(2)))
        elif k=='L': o.append(('L',a))
        else: o.append(('X',a,rnd.choice([0,np-1,np//2,np//2-1,rnd.randrange(np),-1,np])))
    for a in(0,1,nl-1): o.append(('L',a))
    return o
