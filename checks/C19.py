from common import *
import reflspec as S, math, datetime
from C10 import cza,satza
bits=lambda d: '%016x'%struct.unpack('<Q',struct.pack('<d',d))[0]
dbl=lambda u: struct.unpack('<d',struct.pack('<Q',u))[0]
dbh=lambda h: dbl(int(h,16))
SRC=[S.D+f+'.cpp' for f in('base','cos_sol_za','sat_za','jday','reflectance','pixeltolatlon')]+['msat/facts.cpp']
WIDTH={'cos_sol_za':7,'sat_za':7,'jday':3,'reflectance':6}
def clamp(v,hi): return 0.0 if math.isnan(v) or v<=0 else min(v,hi)
def formula(kind,ch,t,lon,lat,cal):
    """value of a pixel; cal: for each source its radiance or temperature"""
    jd,hour=t
    if kind=='jday': return float(jd)
    if kind=='cos_sol_za': return clamp(cza(jd,hour,lat,lon),1.0)
    if kind=='sat_za': return clamp(satza(lat,lon),math.pi)
    c=max(cza(jd,hour,lat,lon),S.COS80); f,m=S.conc()
    try:
        if ch!=4: e=S.esd(jd-3.0,m); v=S.single(cal[0],1.0,0.0,c,S.TR[ch]/(e*e))
        else: v=S.refl39(cal,[1.0]*3,[0.0]*3,c,satza(lat,lon),jd-3.0,m,lambda a,b,x: x if a<=b else a)
    except (OverflowError,ZeroDivisionError): return None
    return clamp(v,100.0)
class Source:
    def __init__(s,time='2010-06-21_10:30:00',srs=1,gt=(5.0,.5,.01,40.0,.02,-.5),hasgt=1,w=4,h=4,bx=4,by=1,bands=()): s.__dict__.update(locals())
    def text(s): return ' '.join([s.time,str(s.srs),str(s.hasgt)]+[bits(x) for x in s.gt]+['%d %d %d %d %d'%(s.w,s.h,s.bx,s.by,len(s.bands))]+[b.text() for b in s.bands])
class Band:
    def __init__(s,chan,counts,scale=1.0,offset=0.0,hasscale=1,hasoffset=1,fails=0,md=1): s.__dict__.update(locals())
    def text(s): return ' '.join([str(s.chan),bits(s.scale),bits(s.offset),'%d %d %d %d'%(s.hasscale,s.hasoffset,s.fails,s.md)]+[str(c) for c in s.counts])
def number(c):
    """channel number of the text of a band"""
    t=str(c)
    return int(t) if t.isdigit() and 1<=int(t)<=12 else None
def expected(kind,ch,srcs):
    """None: refused; otherwise (first source, source bands in order)"""
    def ok(s): return s.srs in(1,2) and s.hasgt and s.time!='none'
    if kind!='reflectance':
        s=srcs[0]; b=s.bands[0]
        return None if not ok(s) or not(b.md or b.chan!='none') else (s,[b])
    chans={}; first=None
    for s in srcs:
        if not any(number(b.chan) for b in s.bands): continue
        if not(s.srs in(1,2,3) and s.hasgt and s.time!='none'): return None
        if first and ((s.srs,s.gt,s.time,s.w,s.h)!=(first.srs,first.gt,first.time,first.w,first.h)): return None
        first=first or s
        for b in s.bands:
            if number(b.chan): chans[number(b.chan)]=b
    need={4:[4,9,11]}.get(ch,[ch] if ch in S.TR else None)
    if need is None or not first or not ok(first) or not all(k in chans for k in need): return None
    u=[chans[k] for k in need]
    return None if not all(b.hasscale and b.hasoffset for b in u) else (first,u)
def check():
    C=Check('C19'); S.lay(); S.slots(); rnd=C.rnd
    for k in('cos_sol_za','sat_za'): C.unit('block of '+k,S.unit_angle(k,S.in_range))
    C.unit('block of jday',S.unit_jday)
    C.unit('block of reflectance',S.unit_refl('single')); C.unit('block of reflectance, source fails',S.unit_refl('single',0)); C.unit('block of reflectance 3.9',S.unit_refl('39'))
    for i in range(3): C.unit('block of reflectance 3.9, source %d fails'%i,S.unit_refl('39',i))
    C.unit('positions: setting up',S.unit_positions_setup)
    for r in(1,2,3): C.unit('positions of %d rows'%r,S.unit_positions(r))
    for k in S.BANDS: C.unit('band of '+k,S.unit_band(k)); C.unit('dataset of '+k,S.unit_dataset(k))
    C.unit('band of reflectance',S.unit_single_band); C.unit('band of reflectance 3.9',S.unit_39_band); C.unit('what a reflectance band reports',S.unit_reports); C.unit('band of a channel',S.unit_init)
    for b in S.SOURCES: C.unit('source of bands %s'%','.join(map(str,b)),S.unit_source(b))
    for k in(1,0): C.unit('description from the %s source'%('first' if k else 'next'),S.unit_info(k))
    C.unit('description of a band',S.unit_bandinfo); C.unit('geotransform and projection',S.unit_getters)
    C.bounded.append(dict(unit='positions of a block',why='proved for blocks of 1, 2 and 3 rows of any width; more rows only in the concrete comparison'))
    C.bounded.append(dict(unit='add_source',why='proved for datasets of up to three bands; more only in the concrete comparison'))
    C.prove(os.environ.get('ONLY'))
    exe=C.native('derived',[H('derived.cpp')]+SRC,libs=['-lgdal'])
    def rasters(l,tag=''):
        """l: (kind, channel, given, sources)"""
        outs=C.run_cases(exe,['%s %d %d %d %s'%(k,ch,g,len(s),' '.join(x.text() for x in s)) for k,ch,g,s in l])
        for (kind,ch,given,srcs),o in zip(l,outs):
            what=tag+kind; inp=(kind,ch,given,[(s.time,s.srs,s.hasgt,s.gt,s.w,s.h,s.bx,s.by,[(b.chan,b.scale,b.offset,b.hasscale,b.hasoffset,b.fails,b.md,b.counts[:4]) for b in s.bands]) for s in srcs]); e=expected(kind,ch,srcs); f=o.split(' | ')
            if e is None: C.expect(what,inp,f[0][:60],'refused',what+' refusal'); continue
            s,bands=e; n=s.w*s.h; owner=[i for i,x in enumerate(srcs) if kind=='reflectance' and given>>i&1 and any(number(b.chan) for b in x.bands)]
            head='ok %d %d %d %d %d 1 %s %s'%(s.w,s.h,bands[0].bx_by[0],bands[0].bx_by[1],WIDTH[kind],bands[0].chan if bands[0].md else '-',s.time.replace('_',' '))+(' % 0 1 0' if kind=='reflectance' else '')+' 1 1'
            if any(b.fails for b in bands) and kind=='reflectance': C.expect(what,inp,' | '.join(f),' | '.join([head,'error','0 %d'%len(owner)]),what); continue
            if not C.expect(what+', description',inp,f[0].strip()+(' | '+f[2] if len(f)>2 else ''),head+' | 0 %d'%len(owner),what+' description'): continue
            if f[1]=='error': C.expect(what,inp,'error','pixels',what); continue
            v=f[1].split(); y,m,d=map(int,s.time.split('_')[0].split('-')); hh,mm=map(int,s.time.split('_')[1].split(':')[:2]); t=(datetime.date(y,m,d).timetuple().tm_yday,hh+mm/60.0)
            worst=None
            for k in range(n):
                lon,lat,got=map(dbh,v[3*k:3*k+3])
                if not(math.isfinite(lon) and math.isfinite(lat)) and kind!='jday':   # no position
                    if 0<=got<={'cos_sol_za':1.0,'sat_za':math.pi}.get(kind,100.0): continue
                    worst=(k,lon,lat,got,'a number in range'); break
                want=formula(kind,ch,t,lon,lat,[b.counts[k]*b.scale+b.offset for b in bands])
                if want is None: continue
                tol=1e-9 if kind!='reflectance' else max(1e-5,abs(want)*1e-5)
                if abs(want-got)<=tol: continue
                if kind=='sat_za' and want>1 and got==1.0: C.expect('angle of pixel',(lon,lat),got,want,'sat_za over one radian',ok=False); continue
                worst=(k,lon,lat,got,want); break
            C.expect(what,inp if not worst else (inp,'pixel %d at %.6f %.6f'%worst[:3]),'as documented' if not worst else repr(worst[3]),'as documented' if not worst else repr(worst[4]),what)
    def bx_by(s):
        for b in s.bands: b.bx_by=(s.bx,s.by)
        return s
    def shape():
        bx,by=rnd.choice([(1,1),(4,1),(rnd.randint(1,7),rnd.randint(1,5)),(8,2)]); return dict(w=bx*rnd.randint(1,3),h=by*rnd.randint(1,3),bx=bx,by=by)
    def when(): y=rnd.choice([2003,2004,2010,2012,2020,2021]); d=datetime.date(y,1,1)+datetime.timedelta(days=rnd.choice([0,1,58,59,60,180,364,rnd.randrange(365)])); return '%s_%02d:%02d:%02d'%(d,rnd.choice([0,6,12,18,rnd.randrange(24)]),rnd.choice([0,15,30,45,rnd.randrange(60)]),rnd.choice([0,rnd.randrange(60)]))
    def where(srs):
        if srs==2: return (rnd.uniform(-4e6,4e6),rnd.choice([3000.4,80000.,-60000.]),rnd.choice([0,0,500.]),rnd.uniform(-4e6,4e6),rnd.choice([0,0,-300.]),rnd.choice([-3000.4,90000.]))
        return (rnd.choice([0.,rnd.uniform(-50,50),rnd.uniform(-100,100)]),rnd.choice([.5,3.,-2.,.03]),rnd.choice([0,0,.25]),rnd.choice([0.,rnd.uniform(-60,60)]),rnd.choice([0,0,-.125]),rnd.choice([-.5,1.,-.03]))
    CAL={1:(.02,-1.0),2:(.026,-1.3),3:(.0226,-1.15),12:(.031,-1.6),4:(.1,200.0),9:(.12,180.0),11:(.11,180.0)}
    def band(ch,n,**kw):
        sc,of=CAL.get(ch,(1.0,0.0)); kw.setdefault('scale',sc*rnd.choice([1,1,rnd.uniform(.5,2),-1])); kw.setdefault('offset',of*rnd.choice([1,rnd.uniform(.7,1.3)])); big=rnd.random()<.15
        return Band(ch,[rnd.randrange(65536) if big else rnd.choice([0,51,1023,rnd.randrange(1024)]) for _ in range(n)],**kw)
    def source(chs,base=None,**kw):
        a=dict(time=when(),srs=(r:=rnd.choice([1,1,2])),gt=where(r),**shape()) if base is None else {k:base.__dict__[k] for k in('time','srs','gt','w','h','bx','by')}; a.update(kw); n=a['w']*a['h']; return bx_by(Source(bands=[band(c,n) for c in chs],**a))
    l=[]
    for _ in range(40 if C.quick else 800):
        for k in('cos_sol_za','sat_za','jday'): l.append((k,0,0,[source([rnd.choice([1,9,12,'none'])])]))
        for ch in S.TR: l.append(('reflectance',ch,rnd.randrange(2),[source(rnd.sample(range(1,13),rnd.randint(0,3))+[ch])]))
    for _ in range(60 if C.quick else 1200):
        a=source([4]); b,c=source([9],a),source([11],a); p=[a,b,c]; rnd.shuffle(p); l.append(('reflectance',4,rnd.randrange(8),p)); l.append(('reflectance',4,rnd.randrange(2),[source(rnd.sample([4,9,11,1,'none','13'],6))]))
        a=source([4]); b=source([9,11],a); l.append(('reflectance',4,rnd.randrange(4),[a,b])); l.append(('reflectance',1,rnd.randrange(4),[source([1,2],a),source([1],a)]))
    for _ in range(4 if C.quick else 60):
        # what is refused
        for ch in list(range(1,13))+[0,13,-1]: l.append(('reflectance',ch,0,[source(rnd.sample(range(1,13),12) if rnd.random()<.5 else [1,2,3,12])]))
        for t in('none','2020-01-01','yesterday'): 
            if t=='none': l+=[(k,1,0,[source([1],time=t)]) for k in('cos_sol_za','sat_za','jday','reflectance')]
        for kw in(dict(srs=0),dict(srs=3),dict(hasgt=0)): l+=[(k,1,0,[source([1],**kw)]) for k in('cos_sol_za','sat_za','reflectance')]
        for kw in(dict(hasscale=0),dict(hasoffset=0),dict(fails=1)):
            for bad in(4,9,11):
                s=source([]); s.bands=[band(c,s.w*s.h,**(kw if c==bad else {})) for c in(4,9,11)]; l.append(('reflectance',4,0,[bx_by(s)]))
            s=source([]); s.bands=[band(2,s.w*s.h,**kw)]; l.append(('reflectance',2,0,[bx_by(s)]))
        for miss in(4,9,11): l.append(('reflectance',4,0,[source([c for c in(4,9,11) if c!=miss])]))
        for c in('none','0','13','x','99'): l.append(('reflectance',1,0,[source([c])]))
        a=source([4]); n=dict(a.__dict__)
        for kw in [dict(time='2001-02-03_04:05:06'),dict(srs=3-a.srs),dict(w=a.w+a.bx),dict(h=a.h+a.by)]+[dict(gt=tuple(x+(1e-9*max(1,abs(x)) if j==i else 0) for j,x in enumerate(a.gt))) for i in range(6)]:
            l.append(('reflectance',4,0,[a,source([9,11],a,**kw)])); l.append(('reflectance',4,1,[a,source([9],a),source([11],a,**kw)]))
    rasters(l)
    def replay(case,r):
        k=case[0]
        if k in('cos_sol_za','sat_za'):
            lon,lat=dbl(case[2]),dbl(case[1]); p=[(lon,lat)] if all(math.isfinite(x) and abs(x)<=90 for x in(lon,lat)) else []
            rasters([(k,0,0,[bx_by(Source(gt=(x,g,0,y,0,g),w=4,h=4,bx=b,by=1,bands=[Band(1,[0]*16)]))]) for x,y in p+[(0.,0.),(10.,45.),(100.,10.)] for g in(.5,5.) for b in(1,4)],'counterexample ')
        else:
            x=case[2:]; n=1 if k=='single' else 3; ch,chs=(1,[1]) if n==1 else (4,[4,9,11]); raw=[int(dbl(v)) if math.isfinite(dbl(v)) and 0<=dbl(v)<65536 else 300 for v in x[:n]]; sl,of=[dbl(v) for v in x[n:2*n]],[dbl(v) for v in x[2*n:]]
            cal=[(sl,of)] if all(math.isfinite(v) and abs(v)<1e6 for v in sl+of) else []
            cal.append(([CAL[c][0] for c in chs],[CAL[c][1] for c in chs]))
            rasters([('reflectance',ch,0,[bx_by(Source(w=4,h=2,bx=b,by=1,bands=[Band(c,[r]*8,s,o,fails=int(case[1]==i)) for i,(c,r,s,o) in enumerate(zip(chs,q,a,f))]))]) for a,f in cal for b in(2,4) for q in(raw,[300]*n,[0]*n)],'counterexample ')
    return C.finish(replayer=replay,rule='sources made in memory: geographic and geostationary, random geotransforms, times, block shapes, counts and calibrations, one or several datasets; sources that lack something or differ')
if __name__=="__main__": main(check)
