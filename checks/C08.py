from common import *
import factspec as F
def check():
    C=Check('C08')
    C.unit('spacecraftIDFromHRIT',F.unit_intmap('spacecraftIDFromHRIT',lambda:F.FROM,1023))
    C.unit('spacecraftIDToHRIT',F.unit_intmap('spacecraftIDToHRIT',lambda:F.TO,0))
    C.unit('HRIT <-> WMO ids',F.unit_roundtrip)
    C.unit('spacecraftName',F.unit_str('spacecraftName',F.STR1['spacecraftName'],1,[(k,) for k in F.NAMES_ALL]))
    C.unit('sensorName',F.unit_str('sensorName',F.STR1['sensorName'],1,[(k,) for k in F.MSG]))
    C.unit('spacecraftID',F.unit_spacecraftID)
    dom=[(s,c) for s in F.MSG for c in range(13)]
    for n in F.STR2: C.unit(n,F.unit_str(n,F.STR2[n],2,dom))
    C.unit('significant digits and missing values',F.unit_channelinfo)
    C.unit('central wavelength and wave number',F.unit_wavelength)
    C.unit('channel_from_central_wavelength',F.unit_wavelength_inv)
    C.prove(os.environ.get('ONLY'))
    exe=C.native('facts',[H('facts.cpp'),F.SRC])
    rnd=C.rnd; cases=[]
    def add(f,args,want): cases.append((' '.join([f]+[str(a) for a in args]),want))
    ids=sorted(set(list(range(-3,1100))+list(F.FROM)+[k+d for k in F.FROM for d in(-1,1)]+[rnd.randint(-2**31,2**31-1) for _ in range(200)]))
    for i in ids:
        add('spacecraftIDFromHRIT',[i],str(F.FROM.get(i,1023))); add('spacecraftIDToHRIT',[i],str(F.TO.get(i,0)))
        for n,s in F.STR1.items(): add(n,[i],s(i))
    scs=list(F.MSG)+[0,1,54,58,69,71,321,322,323,324,-55,1023,2**31-1]
    for sc in scs:
        for c in list(range(-2,16))+[255,2**31-1,-2**31]:
            for n,s in F.STR2.items(): add(n,[sc,c],s(sc,c))
            ok=sc in F.MSG and c in F.WL
            add('channel_central_wavelength',[sc,c],'%.17g'%F.WL[c] if ok else 'EXC')
            if ok: add('channel_from_central_wavelength',[sc,repr(F.WL[c])],str(c)); add('channel_from_central_wave_number',[sc,repr(1/(F.WL[c]*1e-6))],str(c)); add('channel_central_wave_number',[sc,c],('~',1/(F.WL[c]*1e-6)))
            else: add('channel_central_wave_number',[sc,c],'EXC')
        inv={round(w*10):c for c,w in F.WL.items()}
        for k in range(-5,200):
            for d in(0,.004,-.004): add('channel_from_central_wavelength',[sc,repr(k/10+d)],str(inv[k]) if sc in F.MSG and k in inv else 'EXC')
        for x in('nan','inf','-inf','1e300','-1e300','1e9'): add('channel_from_central_wavelength',[sc,x],'EXC')
    for c in list(range(-2,16))+[2**31-1,-2**31,255]:
        k=0<=c<13
        add('significantDigitsForChannel',[c],str(F.DIGITS[c] if k else 0)); add('defaultPackedMissing',[c],'%.17g'%F.PACKED[c] if k else 'nan'); add('defaultScaledMissing',[c],'%.17g'%F.SCALED[c] if k else 'nan')
    byname={v:k for k,v in F.NAMES.items()}
    for t in list(byname)+['','unknown','Non Spacecraft','MSG','MSG5','msg1','MSG1 ','METEOSAT','METOP4','GOES','GOES1','NOAA13']+[a[:-1] for a in byname]+[a+'0' for a in byname]: add('spacecraftID',[t],str(byname.get(t,-1)))
    outs=C.run_cases(exe,[c for c,w in cases])
    def same(o,w):
        if isinstance(w,tuple):
            try: return abs(float(o)-w[1])<=1e-9*abs(w[1])
            except ValueError: return False
        return o==w
    for (c,w),o in zip(cases,outs): C.expect(c.split()[0],c,o,w,ok=same(o,w))
    want=dict(cases)
    def replay(case,r):
        f,a=case; c=' '.join([f]+[str(x) for x in a])
        if c in want: C.expect('counterexample of '+r['name'],c,C.run_cases(exe,[c])[0],want[c],ok=same(C.run_cases(exe,[c])[0],want[c])); return
        w=None
        if f in('spacecraftIDFromHRIT','spacecraftIDToHRIT'): w=str((F.FROM if 'From' in f else F.TO).get(a[0],1023 if 'From' in f else 0))
        elif f in F.STR1: w=F.STR1[f](*a)
        elif f in F.STR2: w=F.STR2[f](*a)
        elif f=='spacecraftID': w=str(byname.get(a[0],-1))
        elif f=='channel_from_central_wavelength':
            x=a[1]; k=next((c for c,v in F.WL.items() if abs(x-v)<.0499),None); near=any(abs(x-v)<.0501 for v in F.WL.values())
            if k is None and near: return
            w=str(k) if k is not None and a[0] in F.MSG else 'EXC'
        elif f=='significantDigitsForChannel': w=str(F.DIGITS[a[0]] if 0<=a[0]<13 else 0)
        elif f.startswith('default'): w='%.17g'%(F.PACKED if 'Packed' in f else F.SCALED)[a[0]] if 0<=a[0]<13 else 'nan'
        elif f.startswith('channel_central'): w='EXC' if not(a[0] in F.MSG and a[1] in F.WL) else None
        if w is not None: o=C.run_cases(exe,[c])[0]; C.expect('counterexample of '+r['name'],c,o,w)
    return C.finish(replayer=replay,rule='one call of a facts function; distinct by function and arguments')
main(check)
