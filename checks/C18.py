from common import *
import drvspec as S, factspec as F, calspec as K, calendar, math, datetime
bits=lambda d: '%016x'%struct.unpack('<Q',struct.pack('<d',d))[0]
f32=lambda x: struct.unpack('<f',struct.pack('<f',x))[0]
b32=lambda x: '%08x'%struct.unpack('<I',struct.pack('<f',x))[0]
flt=lambda u: struct.unpack('<f',struct.pack('<I',u&0xffffffff))[0]
M64=(1<<64)-1
def sample(c,line,i):
    x=(((c['seed']*1000003+line)&M64)*6364136223846793005+i*1442695040888963407)&M64; x^=x>>29; x=x*0xbf58476d1ce4e5b9&M64; x^=x>>32; return x&((1<<c['bits'])-1)
def text(c): return '%d %d %d %d %s %s %s %s %s %s %d %d %d '%(c['hrv'],c['ch'],c['bits'],c['sc'],b32(c['cs']),b32(c['ls']),b32(c['lon']),c['time'],bits(c['slope']),bits(c['offset']),c['start'],c['cols'],c['seed'])+' '.join('%d:%d:%s'%(x,y,','.join(map(str,k))) for x,y,k in c['blocks'])
def head(c):
    """what the dataset says of itself"""
    W=11136 if c['hrv'] else 3712; sc=F.FROM.get(c['sc'],1023); ch=c['ch']; lin=ch not in K.NU; t=bytes.fromhex(c['time']); d=datetime.datetime(1958,1,1)+datetime.timedelta(days=int.from_bytes(t[:2],'big'),milliseconds=int.from_bytes(t[2:6],'big'))
    px,py=(abs(float(f32(1000*x))) for x in(c['cs'],c['ls'])); o=W/2
    l=['%d %d 1 %d|%s|%s'%(W,W,sc,F.STR1['spacecraftName'](sc) if hasattr(F,'STR1') else '',d.strftime('%Y-%m-%d %H:%M:00')),'0']+[bits(x) for x in(-o*px,px,0.0,o*py,0.0,-py)]+['%.9g'%c['lon']]
    n=F.STR2['channelName'](sc,ch); return ' '.join(l+['%d 1 %d 1 %d|%s|%s|%s'%(W,2 if lin else 6,ch,n,n,F.STR2['channelUnit'](sc,ch)),bits(c['slope'] if lin else 1.0),bits(c['offset'] if lin else 0.0),bits(0.0),'111'])
def pixel(c,line,k):
    i=k-c['start']
    if not 0<=i<c['cols']: return 0.0
    s=sample(c,line,i)
    if c['ch'] not in K.NU: return float(s)
    r=K.planck(c['ch'],s*c['slope']+c['offset'])
    return 0.0 if r!=r or r<0 else r
def check():
    C=Check('C18'); S.lay(); S.slots(); rnd=C.rnd
    for h in(0,1):
        for l in(1,0): C.unit('block, %s, %s'%('HRV' if h else 'normal','counts' if l else 'calibrated'),S.unit_block(h,l)); C.unit('band, %s, %s'%('HRV' if h else 'normal','counts' if l else 'calibrated'),S.unit_init(h,l))
        for b in(1,0): C.unit('dataset, %s, %s'%('HRV' if h else 'normal','band set up' if b else 'band refused'),S.unit_dataset(h,b))
    C.unit('unknown channels',S.unit_init(0,1,False)); C.unit('what band and dataset report',S.unit_facts)
    C.prove(os.environ.get('ONLY'))
    from C02 import SRCS
    exe=C.native('xrit',[H('xrit.cpp'),S.DS,S.RB,'msat/gdal/dataset.cpp','msat/gdal/gdaltranslate.cpp']+SRCS(),extra=('-fno-strict-aliasing','-fno-sanitize=enum,bool,vla-bound,float-cast-overflow,float-divide-by-zero'),libs=['-lgdal'])
    def run(l,tag=''):
        for c,o in zip(l,C.run_cases(exe,[text(c) for c in l])):
            inp={k:v for k,v in c.items() if k!='blocks'}
            if not 1<=c['ch']<=12: C.expect(tag+'unknown channel',inp,o[:200],'refused','unknown'); continue
            p=o.split(';'); C.expect(tag+'dataset',inp,p[0],head(c),'dataset')
            W=11136 if c['hrv'] else 3712
            for j,(x,y,ks) in enumerate(c['blocks']):
                g=p[1+j] if len(p)>1+j else '(nothing)'; w=[pixel(c,y,k) for k in ks]; fail=x!=0 or c['start']+c['cols']>W
                if fail: ok=g=='1'; want='an error'
                else:
                    want='0 1 0 '+' '.join('%.9g'%v for v in w); q=g.split(' ')
                    try: ok=q[:3]==['0','1','0'] and len(q)==3+len(w) and all(abs(float(a)-b)<=1e-6*abs(b) for a,b in zip(q[3:],w))
                    except ValueError: ok=False
                C.expect(tag+'block',dict(inp,block=(x,y),pixels=ks[:6]),g[:150],want[:150],'block',ok=ok)
    def scene(hrv=None,ch=None,start=None,cols=None,xb=None,yb=None):
        hrv=rnd.randrange(2) if hrv is None else hrv; W=11136 if hrv else 3712
        ch=(rnd.choice(list(range(1,12))+[12]*(3 if hrv else 0)) if ch is None else ch); th=ch in K.NU
        if cols is None:
            k=rnd.randrange(4); start,cols=((0,W) if k==0 else (rnd.randrange(W),0) if k==1 else (0,0)); 
            if k==1: cols=rnd.choice([1,W-start,rnd.randrange(1,W-start+1)])
            elif k>=2: cols=rnd.randrange(1,W+1); start=rnd.choice([0,W-cols,rnd.randrange(W-cols+1)])
        s=rnd.uniform(.002,.25); n=[]
        for _ in range(3):
            ks=sorted({k for k in[0,1,start-1,start,start+1,start+cols-1,start+cols,start+cols+1,W-1,W-2]+[rnd.randrange(W) for _ in range(6)] if 0<=k<W}); n.append((0,rnd.choice([0,W-1,rnd.randrange(W)]),ks))
        if xb is not None: n=[(xb,yb or 0,[0])]+n[:1]
        elif rnd.randrange(6)==0: n.insert(1,(rnd.choice([1,-1,2,2**31-1]),0,[0]))
        t=rnd.choice([rnd.randrange(8035,40000),rnd.choice([15339,18321,15033])]).to_bytes(2,'big')+rnd.choice([rnd.randrange(86400000),0,86399999,59999,60000]).to_bytes(4,'big')+bytes(4)
        return dict(hrv=hrv,ch=ch,bits=rnd.choice([10,10,10,8,1,16]),sc=rnd.choice(list(F.FROM)[:8]+[321,322,323,324]+[5]),cs=f32(rnd.choice([3.0004032,1.0001344,-3.0,rnd.uniform(.1,9),0.0])),ls=f32(rnd.choice([3.0004032,1.0001344,-1.5,rnd.uniform(.1,9)])),lon=f32(rnd.choice([0.0,9.5,-3.4,41.5,rnd.uniform(-90,90)])),time=t.hex(),slope=s if th else rnd.choice([s,-s,rnd.uniform(-1,1)]),offset=rnd.choice([-51*s,rnd.uniform(-12,0),3.0]) if th else rnd.uniform(-12,3),start=start,cols=cols,seed=rnd.randrange(1<<20),blocks=n)
    n=30 if C.quick else 600
    run([scene() for _ in range(n)]+[scene(ch=c,hrv=h) for h in(0,1) for c in range(1,13)]+[scene(ch=c) for c in(0,13,14,127,255)])
    run([scene(hrv=h,ch=c,start=a,cols=b) for h in(0,1) for c in(1,9) for W in(11136 if h else 3712,) for a,b in((0,W+1),(1,W),(W,1),(W+1,1),(0,65535),(5,0),(W,0),(2**64-5,10),(2**63,1),(W-1,1))])
    def replay(case,r):
        if case[0]=='block':
            h,l,a,b,x,y=case[1:]; run([scene(hrv=h,ch=1 if l else 9,start=a&M64,cols=min(b,70000),xb=x,yb=y)],'counterexample ')
        elif case[0]=='dataset':
            c=scene(hrv=case[1]); c['cs'],c['ls']=flt(case[2]),flt(case[3]); run([c],'counterexample ')
        elif case[0]=='init': run([scene(hrv=case[1],ch=case[3])],'counterexample ')
    return C.finish(replayer=replay,rule='blocks of scenes made up here (any start, length, content, calibration), read through the dataset, with its description')
if __name__=="__main__": main(check)
