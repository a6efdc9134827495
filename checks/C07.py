from common import *
import calspec as K, math, struct
def f32(x):
    try: return struct.unpack('<f',struct.pack('<f',x))[0]
    except OverflowError: return math.copysign(math.inf,x)
def check():
    C=Check('C07')
    for ch in range(1,13): C.unit('get_calibration, channel %d'%ch,K.unit_table(ch))
    C.unit('get_slope_offset',K.unit_slope)
    C.prove(os.environ.get('ONLY'))
    exe=C.native('cal',[H('cal.cpp'),K.SRC,'msat/hrit/MSG_data_ImageAcquisition.cpp','msat/hrit/MSG_machine.cpp','msat/hrit/MSG_time_cds.cpp','msat/facts.cpp'],extra=('-fno-sanitize=enum,bool,float-cast-overflow,float-divide-by-zero',)); rnd=C.rnd; cases=[]
    for ch in range(1,13):
        for bpp in([10,10,8,1,0] if C.quick else [10]*40+[8,1,0,12,16]): s=rnd.uniform(.002,.25); cases.append((ch,bpp,s,-51*s*rnd.choice([1,1,.99]),rnd.uniform(.002,.25),rnd.uniform(-12,0)))
        cases+=[(ch,10,.01,0.0,.02,1.0),(ch,10,.2,3.0,.02,1.0),(ch,10,-.01,5.0,.02,1.0),(ch,-1,rnd.uniform(.002,.25),rnd.uniform(-12,0),3.0,4.0)]
    def run(cs,tag=''):
        for c,o in zip(cs,C.run_cases(exe,['%d %d %s'%(c[0],c[1],' '.join(float(x).hex() for x in c[2:])) for c in cs])):
            ch,bpp,s,f=c[:4]
            try: v=[float(x) for x in o.split()]
            except ValueError: v=None
            inp='channel %d bits %d slope %r offset %r'%c[:4]
            if bpp<0:
                ok=v is not None and len(v)==3 and v[2]==(0 if ch in K.NU else 1) and (K.slope_ok(ch,v[0]) and K.offset_ok(ch,v[1]) if ch in K.NU else v[:2]==[s,f]); C.expect(tag+'slope',inp,o,'%r %r linear %d'%(s,f,ch not in K.NU),ok=ok); continue
            if v is None or len(v)!=1<<bpp: C.expect(tag+'table',inp,o[:200],'%d entries'%(1<<bpp)); continue
            for i,x in enumerate(v):
                r=i*s+f; w=K.planck(ch,r) if ch in K.NU else r
                if f and abs(r)<1e-12*abs(f): continue
                y=f32(w) if w==w else w; t=1e-6*(abs(w)+K.B.get(ch,0)+(abs(f) if ch not in K.NU else 0)) if math.isfinite(w) else 0
                ok=(x!=x)==(y!=y) and (x!=x or x==y or abs(x-y)<=t)
                if not ok: C.expect(tag+'count %d'%i,inp,x,y,ok=False); break
            else: C.expect(tag+'table',inp,o[:60],'',ok=True)
    run(cases)
    def replay(c,r):
        ch,bpp,s,f=c
        if s is None or f is None or not(math.isfinite(s) and math.isfinite(f)) or not 1e-4<=abs(s)<1: return
        run([(ch,min(bpp,16),s,f,.5,.25)],'counterexample ')
    return C.finish(replayer=replay,rule='one calibration table per channel, number of bits and coefficient pair')
main(check)
