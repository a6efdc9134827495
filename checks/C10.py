from common import *
import factspec as F, math, datetime
def cza(jd,hour,lat,lon):
    from math import sin,cos
    rpd=math.pi/180; d=2*math.pi*(jd-1)/365.242
    homp=12+.123570*sin(d)-.004289*cos(d)+.153809*sin(2*d)+.060783*cos(2*d)
    hang=15*(hour-homp)+lon; a=279.9348*rpd+d
    s=(a/rpd+.4087*sin(a)+1.8724*cos(a)-.0182*sin(2*a)+.0083*cos(2*a))*rpd
    sd=.3978*sin(s); return sd*sin(rpd*lat)+math.sqrt(1-sd*sd)*cos(rpd*lat)*cos(rpd*hang)
def satza(lat,lon):
    g=math.cos(lon*math.pi/180)*math.cos(lat*math.pi/180); q=math.sqrt(max(0,1-g*g)); x=g-6378.1370/42164.0
    return math.pi/2-(math.atan(x/q) if q else math.copysign(math.pi/2,x))
def check():
    C=Check('C10')
    C.unit('jday',F.unit_jday); C.unit('cos_sol_za',F.unit_cza); C.unit('sat_za',F.unit_satza); C.unit('cos_sol_za is periodic in longitude',F.unit_period)
    C.prove(os.environ.get('ONLY'))
    exe=C.native('facts',[H('facts.cpp'),F.SRC]); rnd=C.rnd; cases=[]
    for y in [1,4,100,400,1600,1700,1800,1900,1904,1970,1996,1999,2000,2001,2004,2010,2023,2024,2100,2200,2400]+[rnd.randint(1,9999) for _ in range(20 if C.quick else 400)]:
        for m in range(1,13):
            for d in range(1,F.DAYS[m-1]+(1 if m==2 and F.leap(y) else 0)+1): cases.append(('jday %d %d %d'%(y,m,d),str(datetime.date(y,m,d).timetuple().tm_yday)))
    for k in range(600 if C.quick else 20000):
        y,m,h,mi=rnd.choice([1900,1999,2000,2004,2010,2011,2024,rnd.randint(1950,2100)]),rnd.randint(1,12),rnd.randint(0,23),rnd.randint(0,59); d=rnd.randint(1,F.DAYS[m-1]); la,lo=rnd.choice([0,90,-90,rnd.uniform(-90,90)]),rnd.choice([0,180,-180,rnd.uniform(-180,180)])
        j=datetime.date(y,m,d).timetuple().tm_yday; w=cza(j,h+mi/60,la,lo)
        cases.append(('cza7 %d %d %d %d %d %r %r'%(y,m,d,h,mi,la,lo),w)); cases.append(('cza5 %d %d %d %r %r'%(j,h,mi,la,lo),w)); cases.append(('cza3 %d %r %r %r'%(j,h+mi/60,la,lo),w)); cases.append(('cza3 %d %r %r %r'%(j,h+mi/60,la,lo+360),w))
        hr=rnd.uniform(0,24); cases.append(('cza3 %d %r %r %r'%(j,hr,la,lo),cza(j,hr,la,lo)))
        if abs(la)>1e-3 or abs(lo)>1e-3: cases.append(('sat_za %r %r'%(la,lo),satza(la,lo)))
    outs=C.run_cases(exe,[c for c,w in cases])
    def same(o,w):
        if isinstance(w,str): return o==w
        try: return abs(float(o)-w)<1e-7
        except ValueError: return False
    for (c,w),o in zip(cases,outs): C.expect(c.split()[0],c,o,w,ok=same(o,w))
    def replay(case,r):
        f,a=case
        if f=='jday' and 1<=a[0]<=9999:
            c='jday %d %d %d'%tuple(a); C.expect('counterexample of '+r['name'],c,C.run_cases(exe,[c])[0],str(datetime.date(*a).timetuple().tm_yday))
    return C.finish(replayer=replay,rule='one call; distinct by function and arguments')
if __name__=="__main__": main(check)
