"""msat/facts: WMO common code table C-5 satellites, SEVIRI channels, grid conversions, calendar and angles."""
import re, build, contracts, math
SRC='msat/facts.cpp'
# documented tables ------------------------------------------------------------------------------------------------
# WMO C-5 id -> name
NAMES={3:'METOP1',4:'METOP2',5:'METOP3',50:'METEOSAT3',51:'METEOSAT4',52:'METEOSAT5',53:'METEOSAT6',54:'METEOSAT7',55:'MSG1',56:'MSG2',57:'MSG3',58:'MTSAT1',59:'MTSAT2',70:'MSG4',150:'GMS3',151:'GMS4',152:'GMS5',204:'NOAA12',205:'NOAA14',206:'NOAA15',251:'GOES7',252:'GOES8',253:'GOES9',254:'GOES10',255:'GOES11',256:'GOES12',310:'GOMS1',311:'GOMS2'}
NAMES_ALL=dict(NAMES); NAMES_ALL.update({999:'Non Spacecraft',1023:'Non Spacecraft'})
# HRIT id (CGMS LRIT/HRIT global specification, Table 4-?) -> WMO id, by satellite
HRIT_SYM={'MSG_METOP_1':3,'MSG_METOP_2':4,'MSG_METOP_3':5,'MSG_METEOSAT_3':50,'MSG_METEOSAT_4':51,'MSG_METEOSAT_5':52,'MSG_METEOSAT_6':53,'MSG_MSG_1':55,'MSG_MSG_2':56,'MSG_MSG_3':57,'MSG_MSG_4':70,'MSG_NOAA_12':204,'MSG_NOAA_14':205,'MSG_NOAA_15':206,'MSG_GOES_7':251,'MSG_GOES_8':252,'MSG_GOES_9':253,'MSG_GOES_10':254,'MSG_GOES_11':255,'MSG_GOES_12':256,'MSG_GOMS_1':310,'MSG_GOMS_2':311,'MSG_GMS_4':151,'MSG_GMS_5':152,'MSG_MTSAT_1':58,'MSG_MTSAT_2':59}
HRIT_ID={'MSG_NO_SPACECRAFT':0,'MSG_METOP_1':11,'MSG_METOP_2':12,'MSG_METOP_3':13,'MSG_METEOSAT_3':16,'MSG_METEOSAT_4':19,'MSG_METEOSAT_5':20,'MSG_METEOSAT_6':21,'MSG_MSG_1':321,'MSG_MSG_2':322,'MSG_MSG_3':323,'MSG_MSG_4':324,'MSG_NOAA_12':17012,'MSG_NOAA_14':17014,'MSG_NOAA_15':17015,'MSG_GOES_7':18007,'MSG_GOES_8':18008,'MSG_GOES_9':18009,'MSG_GOES_10':18010,'MSG_GOES_11':18011,'MSG_GOES_12':18012,'MSG_GOMS_1':19001,'MSG_GOMS_2':19002,'MSG_GMS_4':20004,'MSG_GMS_5':20005,'MSG_MTSAT_1':21001,'MSG_MTSAT_2':21002}
FROM={HRIT_ID[k]:v for k,v in HRIT_SYM.items()}; FROM[0]=1023; TO={v:k for k,v in FROM.items()}
MSG=(55,56,57,70)
CH=['no-channel','VIS006','VIS008','IR_016','IR_039','WV_062','WV_073','IR_087','IR_097','IR_108','IR_120','IR_134','HRV']
RAD='mW m^-2 sr^-1 (cm^-1)^-1'
UNIT=['unknown']+[RAD]*3+['K']*8+[RAD]
WL={1:.6,2:.8,3:1.6,4:3.9,5:6.2,6:7.3,7:8.7,8:9.7,9:10.8,10:12.0,11:13.4,12:.7}
DIGITS=[2,4,4,4,2,2,2,2,2,2,2,2,4]
PACKED=[0.0]*13
SCALED=[0.0]*13; SCALED[1]=-1.02691; SCALED[12]=-1.63196
def name_of(i): return NAMES_ALL.get(i,'unknown')
def ch(tab,other): return lambda sc,c: tab[c] if sc in MSG and 0<=c<13 else other
STR2={'channelName':ch(CH,'unknown'),'channelUnit':ch(UNIT,'unknown'),'channelLevel':ch(['1.5']*13,'')}
STR1={'spacecraftName':name_of,'sensorName':lambda i:'Seviri' if i in MSG else 'unknown'}
# proof units ------------------------------------------------------------------------------------------------------
def env(U,opaque=True):
    prog=U.prog([build.emit_ir(SRC)]); vm=U.vm(prog)
    if opaque: contracts.opaque_strings(vm,prog,but=r'operator==')
    return prog,vm
def fn_of(prog,sig):
    fs=[n for n in prog.funcs if prog.dem.get(n,'')=='msat::facts::'+sig]
    return prog.funcs[fs[0]] if fs else None
def unit_intmap(name,table,default):
    def fn(U):
        import z3
        from sym import State,bv
        prog,vm=env(U); f=fn_of(prog,name+'(int)'); st=State(); i=z3.BitVec('id',32)
        U.on_model=lambda ev,o:(name,[s32(ev(i).as_long())])
        for o in U.rets(vm,vm.call_fn(f,[i],st),what=name):
            w=z3.BitVecVal(default,32)
            for k,v in table().items(): w=z3.If(i==k,z3.BitVecVal(v,32),w)
            vm.oblige(o.st,bv(o.val,32)==w,'%s agrees with the table for every id'%name)
    return fn
def s32(x): return x-(1<<32) if x>>31 else x
def unit_roundtrip(U):
    """HRIT -> WMO -> HRIT is the identity on known satellites (and WMO -> HRIT -> WMO), decided on the code alone"""
    import z3
    from sym import State,bv
    prog,vm=env(U); a,b=fn_of(prog,'spacecraftIDFromHRIT(int)'),fn_of(prog,'spacecraftIDToHRIT(int)'); i=z3.BitVec('id',32)
    for f,g,unk,nm in((a,b,1023,'HRIT id'),(b,a,0,'WMO id')):
        st=State()
        for o in U.rets(vm,vm.call_fn(f,[i],st),what=nm):
            for p in U.rets(vm,vm.call_fn(g,[o.val],o.st),what=nm):
                vm.oblige(p.st,z3.Or(bv(o.val,32)==unk,bv(p.val,32)==i),'the %s of a known satellite survives conversion and back'%nm)
def unit_str(name,spec,nargs,dom):
    def fn(U):
        import z3, models
        from sym import State,bv,And,PtrIte,Ptr
        prog,vm=env(U); f=fn_of(prog,name+('(int)' if nargs==1 else '(int, int)')); st=State()
        xs=[z3.BitVec('a%d'%k,32) for k in range(nargs)]
        U.on_model=lambda ev,o:(name,[s32(ev(x).as_long()) for x in xs])
        # the specification by its values: text -> condition on the arguments
        by={}
        for a in dom: by.setdefault(spec(*a),[]).append(z3.And(*[x==v for x,v in zip(xs,a)]))
        anyd=z3.Or(*[c for l in by.values() for c in l]); other=spec(*[-999]*nargs); by.setdefault(other,[]).append(z3.Not(anyd))
        for o in U.rets(vm,vm.call_fn(f,xs,st),what=name):
            alts=o.val.alts if isinstance(o.val,PtrIte) else [(True,o.val)]
            for c,q in alts:
                t=models.cstr_bytes(vm,o.st,q)
                if t is None: vm.oblige(o.st,z3.BoolVal(False),name+' returns a string literal'); continue
                t=t.decode('latin1'); g=z3.Or(*by[t]) if t in by else z3.BoolVal(False)
                vm.oblige(o.st,g if c is True else z3.Implies(c,g),'%s answers "%s" exactly for its ids'%(name,t))
    return fn
def string_arg(vm,st,lit_of):
    """std::string argument known only through comparisons with literals: E(lit) booleans, at most one true"""
    from sym import Ptr
    o=vm.new(st,'string',32,'heap'); return Ptr(o,0)
def unit_spacecraftID(U):
    import z3, models
    from sym import State,bv,Ptr,Not,And,fresh,Unsupported
    prog,vm=env(U); f=[prog.funcs[n] for n in prog.funcs if prog.dem[n].startswith('msat::facts::spacecraftID(std::')]
    st=State(); s_=vm.new(st,'name',32,'heap'); E={}
    def eq(vm_,st_,a,I):
        q=[vm_.resolve(st_,x)[0][1] for x in a]
        lit=[x for x in q if x.obj is not s_]
        if len(lit)!=1: return NotImplemented
        t=models.cstr_bytes(vm_,st_,lit[0])
        if t is None: return NotImplemented
        return E.setdefault(t,z3.Bool('name==%s'%t.decode()))
    text=vm.new(st,'text',4096,'heap')
    def order(vm_,st_,a,I):
        e=eq(vm_,st_,a,I)
        if e is NotImplemented: return e
        x=fresh('order',32); st_.assume((x==0)==e); return x
    def strcmp(vm_,st_,a,I):
        q=[vm_.resolve(st_,x)[0][1] for x in a[:2]]
        if not any(x.obj is text for x in q): return plain(vm_,st_,a,I)
        return order(vm_,st_,[Ptr(s_,0) if x.obj is text else x for x in q],I)
    plain=vm.models['strcmp']; vm.models['strcmp']=strcmp
    def chars(v,t,a,I):
        if v.resolve(t,a[0])[0][1].obj is not s_: raise Unsupported('characters of another text')
        return Ptr(text,0)
    def other(d):
        def f(vm_,st_,a,I): raise Unsupported('%s of the name'%d[:60])
        return f
    for nm,d in prog.dem.items():
        if re.search(r'operator==<char.*>\(std::.*char const\*\)|operator==<char.*>\(char const\*, std::',d): vm.contracts[nm]=eq
        elif re.search(r'operator!=<char.*>\(std::.*char const\*\)|operator!=<char.*>\(char const\*, std::',d): vm.contracts[nm]=lambda v,t,a,I:(lambda e:e if e is NotImplemented else z3.Not(e))(eq(v,t,a,I))
        elif re.match(r'std::__cxx11::basic_string<char.*>::compare\(char const\*\) const$',d): vm.contracts[nm]=order
        elif re.match(r'std::__cxx11::basic_string<char.*>::(c_str|data)\(\)( const)?$',d): vm.contracts[nm]=chars
        elif re.match(r'(bool )?std::.*basic_string<char|bool std::operator[=!<>]=?<char',d) and not re.search(r'~?basic_string\(\)$',d): vm.contracts[nm]=other(d)
    vm.assumptions.add('std::string ==, != and compare with a C string, and strcmp, are about equality of texts')
    outs=U.rets(vm,vm.call_fn(f[0],[Ptr(s_,0)],st),what='spacecraftID')
    byname={v:k for k,v in NAMES.items()}
    for t in byname: E.setdefault(t.encode(),z3.Bool('name==%s'%t))
    ex=[z3.Not(z3.And(a,b)) for i,a in enumerate(E.values()) for b in list(E.values())[:i]]
    w=z3.BitVecVal(-1,32)
    for t,i in byname.items(): w=z3.If(E[t.encode()],z3.BitVecVal(i,32),w)
    U.on_model=lambda ev,o:('spacecraftID',[next((t.decode() for t,b in E.items() if z3.is_true(ev(b))),'nonsense')])
    for o in outs:
        o.st.assume(z3.And(*ex)); vm.oblige(o.st,bv(o.val,32)==w,'spacecraftID gives the id of the named satellite, -1 for any other text')
def unit_channelinfo(U):
    import z3
    from sym import State,bv,fpz
    prog,vm=env(U); c=z3.BitVec('channel',32)
    for name,tab,k in(('significantDigitsForChannel',DIGITS,'i'),('defaultPackedMissing',PACKED,'f'),('defaultScaledMissing',SCALED,'f')):
        f=fn_of(prog,name+'(int)'); 
        for ci in range(13):
            st=State()
            U.on_model=lambda ev,o,name=name,ci=ci:(name,[ci])
            for o in U.rets(vm,vm.call_fn(f,[ci],st),what=name):
                if k=='i': U.equal(vm,o.st,o.val,tab[ci],'%s(%d)'%(name,ci),32) and U.ok(name)
                else: U.equal(vm,o.st,o.val,float(tab[ci]),'%s(%d)'%(name,ci),64) and U.ok(name)
        st=State(); st.assume(z3.Or(c<0,c>12))
        U.on_model=lambda ev,o,name=name:(name,[s32(ev(c).as_long())])
        for o in U.rets(vm,vm.call_fn(f,[c],st),what=name):
            if k=='i': vm.oblige(o.st,bv(o.val,32)==0,'%s of an unknown channel is 0'%name)
            else: vm.oblige(o.st,z3.fpIsNaN(fpz(o.val,8)),'%s of an unknown channel is not a number'%name)
def unit_wavelength(U):
    import z3
    from sym import State,bv,fpz,fconc,FALSE,Not
    prog,vm=env(U); W=fn_of(prog,'channel_central_wavelength(int, int)'); N=fn_of(prog,'channel_central_wave_number(int, int)'); FW=fn_of(prog,'channel_from_central_wavelength(int, double)'); FN=fn_of(prog,'channel_from_central_wave_number(int, double)')
    vm.fp2int_target=True
    for sc in MSG:
        for c,w in WL.items():
            U.on_model=lambda ev,o,sc=sc,c=c:('channel_central_wavelength',[sc,c])
            for o in U.rets(vm,vm.call_fn(W,[sc,c],State()),what='wavelength'): U.equal(vm,o.st,o.val,w,'central wavelength of channel %d of %d'%(c,sc),64) and U.ok('central wavelength')
            for o in U.rets(vm,vm.call_fn(N,[sc,c],State()),what='wave number'):
                x=fconc(o.val) if not isinstance(o.val,float) else o.val
                U.result('wave number of channel %d of %d'%(c,sc),x is not None and abs(x*w*1e-6-1)<1e-12,case=('channel_central_wave_number',[sc,c]))
                for p in U.rets(vm,vm.call_fn(FN,[sc,o.val],o.st),what='inverse'): U.equal(vm,p.st,p.val,c,'the wave number of channel %d of %d leads back to it'%(c,sc),32) and U.ok('wave number inverse')
            for o in U.rets(vm,vm.call_fn(FW,[sc,w],State()),what='inverse'): U.equal(vm,o.st,o.val,c,'the wavelength of channel %d of %d leads back to it'%(c,sc),32) and U.ok('wavelength inverse')
    i,c=z3.BitVec('sc',32),z3.BitVec('ch',32)
    known=z3.And(z3.Or(*[i==k for k in MSG]),c>=1,c<=12)
    for F_,args in((W,[i,c]),(N,[i,c])):
        st=State(); st.assume(z3.Not(known))
        U.on_model=lambda ev,o:('channel_central_wavelength',[s32(ev(i).as_long()),s32(ev(c).as_long())])
        for o in vm.call_fn(F_,args,st): vm.oblige(o.st,o.kind=='throw' and str(o.val.tinfo).startswith('_ZTISt'),'unknown satellites or channels are refused with a standard exception')
    wl=z3.FP('wl',z3.Float64())
    for F_ in(FW,FN):
        st=State(); st.assume(z3.And(*[i!=k for k in MSG]))
        for o in vm.call_fn(F_,[i,wl],st): vm.oblige(o.st,o.kind=='throw' and str(o.val.tinfo).startswith('_ZTISt'),'wavelengths of unknown satellites are refused')
def unit_wavelength_inv(U):
    """a wavelength is attributed to a channel only within 0.05 um of its central wavelength"""
    import z3
    from sym import State,bv
    prog,vm=env(U); FW=fn_of(prog,'channel_from_central_wavelength(int, double)'); vm.fp2int_target=True
    wl=z3.FP('wl',z3.Float64()); i=z3.BitVec('sc',32); st=State(); st.assume(z3.Or(*[i==k for k in MSG]))
    U.on_model=lambda ev,o:('channel_from_central_wavelength',[s32(ev(i).as_long()),fpval(ev(wl))])
    for o in vm.call_fn(FW,[i,wl],st):
        if o.kind=='throw': vm.oblige(o.st,str(o.val.tinfo).startswith('_ZTISt'),'other wavelengths are refused'); continue
        if o.kind!='ret': vm.oblige(o.st,z3.BoolVal(False),'no '+o.kind); continue
        v=bv(o.val,32); vm.oblige(o.st,z3.And(v>=1,v<=12),'only existing channels are given')
        for c,w in WL.items():
            s2=o.st.fork(); s2.assume(v==c)
            vm.oblige(s2,z3.And(z3.fpGEQ(wl,z3.FPVal(w-.0500001,z3.Float64())),z3.fpLEQ(wl,z3.FPVal(w+.0500001,z3.Float64()))),'channel %d is given only for wavelengths that round to its own'%c)
def fpval(e):
    from sym import fconc
    return fconc(e)
# ---- C10
DAYS=[31,28,31,30,31,30,31,31,30,31,30,31]
def leap(y): return (y%4==0 and y%100!=0) or y%400==0
def unit_jday(U):
    import z3
    from sym import State,bv
    prog,vm=env(U); f=fn_of(prog,'jday(int, int, int)'); y=z3.BitVec('yr',32)
    L=z3.Or(z3.And(z3.SRem(y,4)==0,z3.SRem(y,100)!=0),z3.SRem(y,400)==0)
    for m in range(1,13):
        for d in range(1,(29 if m==2 else DAYS[m-1])+1):
            st=State(); st.assume(y>=1)
            if m==2 and d==29: st.assume(L)
            U.on_model=lambda ev,o,m=m,d=d:('jday',[s32(ev(y).as_long()),m,d])
            base=sum(DAYS[:m-1])+d; w=z3.If(L,z3.BitVecVal(base+1,32),z3.BitVecVal(base,32)) if m>2 else z3.BitVecVal(base,32)
            for o in U.rets(vm,vm.call_fn(f,[y,m,d],st),what='jday'):
                if U.equal(vm,o.st,simpl(o.val),w,'jday of day %d of month %d in every year'%(d,m),32): U.ok('jday')
def simpl(v):
    import z3
    return z3.simplify(v) if isinstance(v,z3.ExprRef) else v
def cza_spec(jd,hour,dlat,dlon):
    """documented formula (declination and hour angle), as FP terms; jd is the double value of the ordinal day"""
    from sym import fbin,fmath
    A=lambda *x: red('fadd',x); M=lambda *x: red('fmul',x); S=lambda a,b: fbin('fsub',a,b,8); sin=lambda x:fmath('sin',[x],8); cos=lambda x:fmath('cos',[x],8)
    def red(op,x):
        r=x[0]
        for y in x[1:]: r=fbin(op,r,y,8)
        return r
    rpd=math.pi/180; dpr=1/rpd
    dang=fbin('fdiv',M(2*math.pi,S(jd,1.0)),365.242,8)
    homp=A(S(A(12.0,M(.123570,sin(dang))),M(.004289,cos(dang))),M(.153809,sin(M(2.0,dang))),M(.060783,cos(M(2.0,dang))))
    hang=A(M(15.0,S(hour,homp)),dlon); ang=A(279.9348*rpd,dang)
    sig=M(A(S(A(M(ang,dpr),M(.4087,sin(ang)),M(1.8724,cos(ang))),M(.0182,sin(M(2.0,ang)))),M(.0083,cos(M(2.0,ang)))),rpd)
    sd=M(.3978,sin(sig)); cd=fmath('sqrt',[S(1.0,M(sd,sd))],8)
    return A(M(sd,sin(M(rpd,dlat))),M(M(cd,cos(M(rpd,dlat))),cos(M(rpd,hang))))
def unit_cza(U):
    import z3
    from sym import State,bv,fbin,F64
    prog,vm=env(U); H,LA,LO=z3.FP('hour',F64),z3.FP('lat',F64),z3.FP('lon',F64); j=z3.BitVec('jd',32)
    toF=lambda b: z3.fpSignedToFP(z3.RNE(),b,F64)
    jm=toF(j-1)
    base=fn_of(prog,'cos_sol_za(int, double, double, double)'); hm=fn_of(prog,'cos_sol_za(int, int, int, double, double)'); cal=fn_of(prog,'cos_sol_za(int, int, int, int, int, double, double)')
    import approx
    def eq(o,want,name):
        if not U.equal(vm,o.st,o.val,want,name,64): return
        U.ok(name)
    h,mi,y,mo,d=[z3.BitVec(n,32) for n in('h','mi','y','mo','d')]
    hz=fbin('fadd',toF(h),fbin('fdiv',toF(mi),60.0,8),8)
    for o in U.rets(vm,vm.call_fn(base,[j,H,LA,LO],State()),what='cos_sol_za(jday, hour)'):
        # (double)(jday-1): the integer is subtracted first
        eq(o,cza_spec_int(j,H,LA,LO),'cosine of the solar zenith angle is the documented declination / hour angle formula')
    def capture(calls):
        def c(vm_,st_,a,I): calls.append((st_,a)); return z3.FP('cza',F64)
        return c
    for f,args,what in((hm,[j,h,mi,LA,LO],'ordinal day, hour and minute'),(cal,[y,mo,d,h,mi,LA,LO],'calendar date')):
        calls=[]; vm.contracts[base.name]=capture(calls); jc=[]
        jd=fn_of(prog,'jday(int, int, int)')
        J=z3.BitVec('J',32)
        vm.contracts[jd.name]=lambda vm_,st_,a,I: (jc.append(a),J)[1]
        st=State(); st.assume(z3.And(J>=-100000,J<=100000))
        for o in U.rets(vm,vm.call_fn(f,args,st),what=what):
            U.equal(vm,o.st,o.val,z3.FP('cza',F64),'%s: the result is that of the fractional-hour form'%what,64) and U.ok('delegates')
            U.result('%s: one evaluation'%what,len(calls)==1)
            for s2,a in calls:
                vm.oblige(s2,bv(a[0],32)==(j if f is hm else J),'%s: the ordinal day passed on is the one of the date'%what)
                vm.oblige(s2,z3.fpEQ(a[1],hz) if not a[1].eq(hz) else True,'%s: the fractional hour is hour + minute/60'%what)
                vm.oblige(s2,z3.And(a[2]==LA,a[3]==LO),'%s: latitude and longitude are passed on'%what)
            if f is cal:
                U.result('the ordinal day comes from the date',len(jc)==1)
                for a in jc: vm.oblige(o.st,z3.And(bv(a[0],32)==y,bv(a[1],32)==mo,bv(a[2],32)==d),'the ordinal day comes from year, month, day in order')
        vm.contracts.pop(base.name); vm.contracts.pop(jd.name)
def cza_spec_int(j,H,LA,LO):
    import z3
    from sym import F64,fbin
    class _:pass
    # jd - 1 is exact in both the integer and the floating form for days of a year
    return cza_from_dang(z3.fpSignedToFP(z3.RNE(),z3.simplify(j-1),F64),H,LA,LO)
def cza_from_dang(jm,hour,dlat,dlon):
    from sym import fbin,fmath
    def red(op,x):
        r=x[0]
        for y in x[1:]: r=fbin(op,r,y,8)
        return r
    A=lambda *x: red('fadd',x); M=lambda *x: red('fmul',x); S=lambda a,b: fbin('fsub',a,b,8); sin=lambda x:fmath('sin',[x],8); cos=lambda x:fmath('cos',[x],8)
    rpd=math.pi/180; dpr=1/rpd
    dang=fbin('fdiv',M(2*math.pi,jm),365.242,8)
    homp=A(S(A(12.0,M(.123570,sin(dang))),M(.004289,cos(dang))),M(.153809,sin(M(2.0,dang))),M(.060783,cos(M(2.0,dang))))
    hang=A(M(15.0,S(hour,homp)),dlon); ang=A(279.9348*rpd,dang)
    sig=M(A(S(A(M(ang,dpr),M(.4087,sin(ang)),M(1.8724,cos(ang))),M(.0182,sin(M(2.0,ang)))),M(.0083,cos(M(2.0,ang)))),rpd)
    sd=M(.3978,sin(sig)); cd=fmath('sqrt',[S(1.0,M(sd,sd))],8)
    return A(M(sd,sin(M(rpd,dlat))),M(M(cd,cos(M(rpd,dlat))),cos(M(rpd,hang))))
def unit_satza(U):
    import z3
    from sym import State,fbin,fmath,F64
    prog,vm=env(U); f=fn_of(prog,'sat_za(double, double)'); LA,LO=z3.FP('lat',F64),z3.FP('lon',F64)
    rad=lambda x: fbin('fdiv',fbin('fmul',x,math.pi,8),180.0,8)
    g=fbin('fmul',fmath('cos',[rad(LO)],8),fmath('cos',[rad(LA)],8),8)
    ele=fmath('atan',[fbin('fdiv',fbin('fsub',g,6378.1370/42164.0,8),fmath('sqrt',[fbin('fsub',1.0,fbin('fmul',g,g,8),8)],8),8)],8)
    for o in U.rets(vm,vm.call_fn(f,[LA,LO],State()),what='sat_za'):
        if U.equal(vm,o.st,o.val,fbin('fsub',math.pi/2,ele,8),'satellite zenith angle is 90 degrees minus the elevation of the documented formula',64): U.ok('sat_za formula')
def unit_period(U):
    """lemma: the formula depends on longitude only through cos(rpd*(a+lon)), and rpd*360 is one turn"""
    import z3, approx
    from sym import State,F64
    prog,vm=env(U); base=fn_of(prog,'cos_sol_za(int, double, double, double)')
    H,LA,LO=z3.FP('hour',F64),z3.FP('lat',F64),z3.FP('lon',F64); j=z3.BitVec('jd',32)
    for o in U.rets(vm,vm.call_fn(base,[j,H,LA,LO],State()),what='cos_sol_za'):
        n=approx.NF(); nf=n.t(o.val); lon=[i for i,(nm,a) in enumerate(n.atoms) if nm=='lon']
        def uses(i,seen=None):
            return i in lon or any(any(uses(k) for k,e in m) for a in n.atoms[i][1] if isinstance(a,dict) for m in a)
        direct=any(i in lon for m in nf for i,e in m)
        U.result('longitude occurs only inside the hour angle',not direct)
        for i in {i for m in nf for i,e in m if uses(i)}:
            nm,a=n.atoms[i]; c=a[0].get(((lon[0],1),)) if len(lon)==1 and nm=='cos' else None
            lin=c is not None and all(m==((lon[0],1),) or not any(uses(k) for k,e in m) for m in a[0])
            U.result('longitude enters as cos(longitude in radians + ...): periodic with 360 degrees (cos has period 2 pi)',lin and abs(float(c)*360/(2*math.pi)-1)<1e-12)
# ---- C09
def unit_grid(U):
    """round trips through the general formulas: relative error bound from the standard model of floating point"""
    import z3, approx
    from sym import State,F64,bv
    prog,vm=env(U)
    def call(name,ty,x,st): return U.rets(vm,vm.call_fn(fn_of(prog,'%s(%s)'%(name,ty)),[x],st),what=name)
    dx=z3.BitVec('dx',32); ps=z3.FP('psx',F64); cf=z3.FP('cfac',F64)
    def general(v):
        """the leaves that are not tabulated constants"""
        from sym import fconc
        return [(c,t) for c,t in approx.leaves(v) if fconc(t) is None]
    def chk(v,var,name,integer=False,bound=None):
        from fractions import Fraction
        ls=general(v) if not integer else [((),v)]
        if not ls: U.result(name+': general formula present',False); return
        for c,t in ls:
            try: k,m,r=approx.relerr(t); ok=m=={var:1} and abs(k-1)+r<Fraction(1,10**13); det='coefficient-1=%.3g relative error<=%.3g'%(float(k-1),float(r))
            except approx.No: ok=False; det='not a multiplicative chain of its input'
            U.result(name,ok,detail=det,solver='relative error analysis',case=('grid',name))
    for ax,(a,b) in dict(H=('pixelHSizeFromCFAC','CFACFromPixelHSize'),V=('pixelVSizeFromLFAC','LFACFromPixelVSize')).items():
        for o in call(a,'double',cf,State()):
            for c,t in general(o.val):
                for p in call(b,'double',t,o.st): chk(p.val,('var','cfac'),'%s of %s returns the scaling factor (|angle| <= 1.2 rad)'%(b,a))
    # sizes -> factor -> integer apparent diameter
    for a,b in(('CFACFromSeviriDX','seviriDXFromCFAC'),('LFACFromSeviriDY','seviriDYFromLFAC'),('columnResFromSeviriDX','seviriDXFromColumnRes'),('lineResFromSeviriDY','seviriDYFromLineRes')):
        for o in call(a,'int',dx,State()):
            try:
                k,m,r=approx.relerr(o.val); U.result('%s is proportional to its argument'%a,list(m.values())==[1] and list(m)[0][0]=='int',case=('grid',a))
            except approx.No: U.result('%s is proportional to its argument'%a,False,case=('grid',a))
            for p in call(b,'double',o.val,o.st):
                e=p.val; ok=False; det=''
                # (int) round(x) with |x - dx| < 1/2
                if z3.is_app(e) and e.decl().kind()==z3.Z3_OP_FPA_TO_SBV:
                    x=e.arg(1); d=x.decl().kind()
                    if d==z3.Z3_OP_FPA_ROUND_TO_INTEGRAL and str(x.arg(0)) in('RNA()','RoundNearestTiesToAway','RNE()','roundNearestTiesToAway'):
                        try: k,m,r=approx.relerr(x.arg(1)); err=(abs(k-1)+r)*(1<<31); ok=list(m.values())==[1] and list(m)[0]==('int','dx') and err<0.49; det='absolute error <= %.3g before rounding'%float(err)
                        except approx.No: det='not a multiplicative chain'
                U.result('%s of %s returns every 32-bit apparent diameter exactly'%(b,a),ok,detail=det,solver='relative error analysis',case=('grid',a))
def unit_axes(U):
    """the conversions of the two axes are the same functions; direct forms agree with the forms through the scaling factor"""
    import z3
    from sym import State,F64,bv
    prog,vm=env(U); x=z3.FP('x',F64); n=z3.BitVec('n',32)
    for a,b,ty,v in(('pixelHSizeFromCFAC','pixelVSizeFromLFAC','double',x),('CFACFromPixelHSize','LFACFromPixelVSize','double',x),('seviriDXFromCFAC','seviriDYFromLFAC','double',x),('CFACFromSeviriDX','LFACFromSeviriDY','int',n),('seviriDXFromColumnRes','seviriDYFromLineRes','double',x),('columnResFromSeviriDX','lineResFromSeviriDY','int',n),('seviriDXFromCFAC','seviriDXFromColumnRes','double',x),('CFACFromSeviriDX','columnResFromSeviriDX','int',n),('seviriDXFromPixelHSize','seviriDYFromPixelVSize','double',x),('pixelHSizeFromSeviriDX','pixelVSizeFromSeviriDY','int',n)):
        fa,fb=fn_of(prog,'%s(%s)'%(a,ty)),fn_of(prog,'%s(%s)'%(b,ty))
        w=32 if a.startswith('seviri') else 64
        for o in U.rets(vm,vm.call_fn(fa,[v],State()),what=a):
            for p in U.rets(vm,vm.call_fn(fb,[v],o.st),what=b):
                if U.equal(vm,p.st,o.val,p.val,'%s and %s are the same function'%(a,b),w): U.ok('axes agree')
    K=lambda s: fn_of(prog,s)
    for a,first,second,known in(('pixelHSizeFromSeviriDX(int)','CFACFromSeviriDX(int)','pixelHSizeFromCFAC(double)',(3608,3622)),('pixelVSizeFromSeviriDY(int)','LFACFromSeviriDY(int)','pixelVSizeFromLFAC(double)',(3608,3622))):
        st=State(); st.assume(z3.And(*[n!=k for k in known]))
        U.on_model=lambda ev,o:('grid',['dx',s32(ev(n).as_long())])
        for o in U.rets(vm,vm.call_fn(K(a),[n],st),what=a):
            for p in U.rets(vm,vm.call_fn(K(first),[n],o.st),what=a):
                for q in U.rets(vm,vm.call_fn(K(second),[p.val],p.st),what=a):
                    if U.equal(vm,q.st,o.val,q.val,'%s goes through the scaling factor'%a,64): U.ok('through')
