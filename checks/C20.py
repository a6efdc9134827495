from common import *
import gdalspec as S
bits=lambda d: '%016x'%struct.unpack('<Q',struct.pack('<d',d))[0]
dbl=lambda u: struct.unpack('<d',struct.pack('<Q',u))[0]
def f32(x):
    try: return '%08x'%struct.unpack('<I',struct.pack('<f',x))[0]
    except OverflowError: return 'ff800000' if x<0 else '7f800000'
def isnan32(h): v=int(h,16); return v>>23&255==255 and v&0x7fffff!=0
def check():
    C=Check('C20'); S.lay(); S.slots(); rnd=C.rnd
    for x in(0,1):
        for y in(0,1): C.unit('calibrated block, %s, source read %s'%('one pixel' if y else 'several pixels','fails' if x else 'succeeds'),S.unit_block(bool(x),bool(y)))
    C.unit('calibrated band',S.unit_newview); C.unit('other bands',S.unit_proxyband); C.unit('bands of the view',S.unit_dataset)
    for w in('GetOffset','GetScale','GetNoDataValue','GetMinimum','GetMaximum'): C.unit(w,S.unit_view(w))
    C.prove(os.environ.get('ONLY'))
    exe=C.native('view',[H('view.cpp'),S.SRC,S.TR],libs=['-lgdal'])
    def blocks(l,tag=''):
        """l: (type, bx, by, xblock, yblock, offset, scale, hasnodata, nodata, fails, counts)"""
        for c,o in zip(l,C.run_cases(exe,['block %d %d %d %d %d %s %s %d %s %d %s'%(*c[:5],bits(c[5]),bits(c[6]),c[7],bits(c[8]),c[9],' '.join(map(str,c[10]))) for c in l])):
            t,bx,by,xb,yb,of,sc,h,nd,fails,cs=c; cal=t==2
            want=['%d'%(6 if cal else t),'%d'%(not fails),'3']
            if not fails: want+=[(f32(0.0) if h and float(k)==nd else f32(k*sc+of)) for k in cs] if cal else [str(k) for k in cs]
            g=o.split(' '); ok=len(g)==len(want) and all(a==b or i>2 and cal and a[:2]!='CR' and isnan32(a) and isnan32(b) for i,(a,b) in enumerate(zip(g,want)))
            bad=[i-3 for i,(a,b) in enumerate(zip(g,want)) if a!=b][:1]
            C.expect(tag+'block',str(c[:10])+' counts '+str(c[10][:4]),' '.join(g[:3])+(' pixel %d is %s'%(bad[0],g[3+bad[0]]) if bad else ''),' '.join(want[:3])+(' pixel %d is %s'%(bad[0],want[3+bad[0]]) if bad else ''),'block',ok=ok)
    def num():
        k=rnd.randrange(8)
        return [0.0,1.0,-1.0,rnd.uniform(-300,300),rnd.uniform(-1,1),rnd.choice([1e300,-1e-300,5e-324,0.1]),float(rnd.randrange(-70000,70000)),rnd.gauss(0,1)*10**rnd.randrange(-9,9)][k]
    def rblock(fails=0,t=2):
        bx,by=rnd.choice([(1,1),(1,rnd.randrange(1,9)),(rnd.randrange(1,40),1),(rnd.randrange(1,20),rnd.randrange(1,20)),(3712,1),(rnd.randrange(1,300),rnd.randrange(1,30))])
        n=bx*by; cs=[rnd.choice([0,1,65535,32768,rnd.randrange(65536),rnd.randrange(1024)]) if t!=1 else rnd.randrange(256) for _ in range(n)]; nd=rnd.choice([0.0,65535.0,float(cs[rnd.randrange(n)]),num(),-0.0,.5,float('nan')])
        return (t,bx,by,rnd.randrange(3),rnd.randrange(3),num(),num(),rnd.randrange(2),nd,fails,cs)
    blocks([rblock() for _ in range(250 if C.quick else 6000)]+[rblock(1) for _ in range(20)]+[rblock(0,t) for t in(1,3) for _ in range(20) if t==1]+[rblock(1,1)])
    # every count once
    for of,sc in((0.0,1.0),(-.0217,.00021),(-10.4567,.205034),(1e10,-3.25)): blocks([(2,256,256,1,2,of,sc,k,0.0,0,list(range(65536))) for k in(0,1)])
    def infos(l,tag=''):
        for c,o in zip(l,C.run_cases(exe,['info %d %d %d %s %d %d'%(*c[:3],' '.join(bits(x) for x in c[3:7]),c[7],c[8]) for c in l])):
            t,bx,by,of,sc,mn,mx,a,b=c
            w=['%d %d'%(bx,by)]+([bits(0.),bits(1.),bits(0.),bits(mn*sc+of),bits(mx*sc+of),'1 1 1 %d %d'%(a,b)] if t==2 else [bits(of),bits(sc),'none',bits(mn),bits(mx),'1 1 0 %d %d'%(a,b)])+['unit of the source']
            C.expect(tag+'info',c,o,' '.join(w),'info')
    infos([(rnd.choice([2,2,2,1,6]),rnd.randrange(1,4000),rnd.randrange(1,4000),num(),num(),num(),num(),rnd.randrange(2),rnd.randrange(2)) for _ in range(300 if C.quick else 20000)])
    ts=[[rnd.choice([1,2,3,4,5,6,7,2,2]) for _ in range(k)] for k in list(range(9))+[rnd.randrange(1,60) for _ in range(20)]]
    for t,o in zip(ts,C.run_cases(exe,['types '+' '.join(map(str,t)) for t in ts])): C.expect('bands',t,o,' '.join(['7 5 %d'%len(t)]+['%d:%d:1:%g'%(i+1,6 if x==2 else x,101+i) for i,x in enumerate(t)]),'bands')
    def replay(case,r):
        if case[0]=='block':
            _,of,sc,h,nd,c=case; blocks([(2,bx,by,1,1,dbl(of),dbl(sc),h,dbl(nd),f,[c]*(bx*by)) for bx,by in((1,1),(2,1),(3,2),(1,5)) for f in(0,1)],'counterexample ')
    return C.finish(replayer=replay,rule='blocks of random shape, offset, scale, no-data value and counts through a view of a real GDAL dataset; every count under four calibrations; the answers of the view; which bands are calibrated')
if __name__=="__main__": main(check)
