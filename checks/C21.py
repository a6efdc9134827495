from common import *
import geospec as S, math
bits=lambda d: '%016x'%struct.unpack('<Q',struct.pack('<d',d))[0]
dbl=lambda u: struct.unpack('<d',struct.pack('<Q',u))[0]
unhex=lambda h: dbl(int(h,16))
def near(a,b,scale=None,tol=1e-9):
    if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b): return a==b
    return abs(a-b)<=tol*max(abs(a),abs(b),scale or 0,1e-300)
s64=lambda v: v-(1<<64) if v>>63 else v
def check():
    C=Check('C21'); S.lay(); S.slots(); rnd=C.rnd
    C.unit('invertGeoTransform',S.unit_invert); C.unit('algebra of the inverse',S.unit_lemma); C.unit('pixel and projected coordinates',S.unit_points); C.unit('decodeGeotransform',S.unit_decode); C.unit('projected and geographic coordinates',S.unit_latlon)
    for c in('','no geotransform','singular','no projection'): C.unit('GeoReferencer::init, '+(c or 'georeferenced image'),S.unit_init(c))
    for b in S.BOX: C.unit(b,S.unit_box(b))
    for r in(0,1):
        for c in('inside','outside','whole','unset'): C.unit('translate, window %s, %s'%(c,'target size given' if r else 'same size'),S.unit_translate(bool(r),c))
    C.unit('translate, image without geotransform',S.unit_translate(False,'inside',False))
    for z,n in enumerate(('crop area','crop area and size','size')):
        for a in('view','image','none'): C.unit('recode %s, translate delivers %s'%(n,a),S.unit_recode(z,a))
    C.prove(os.environ.get('ONLY'))
    exe=C.native('geo',[H('geo.cpp'),S.SRC,S.TR],libs=['-lgdal'])
    hx=lambda l: ' '.join(bits(x) for x in l)
    def invs(l,tag=''):
        for g,o in zip(l,C.run_cases(exe,['inv '+hx(g) for g in l])):
            w=o.split(' ')[1:]; d=g[1]*g[5]-g[2]*g[4]
            if abs(d)<1e-15: C.expect(tag+'inv',g,o,'inv 3','inv'); continue
            ok=len(w)==7 and w[0]=='0'
            if ok:
                i=[unhex(x) for x in w[1:]]; want=[(g[2]*g[3]-g[0]*g[5])/d,g[5]/d,-g[2]/d,(-g[1]*g[3]+g[0]*g[4])/d,-g[4]/d,g[1]/d]; sc=[(abs(g[2]*g[3])+abs(g[0]*g[5]))/abs(d),0,0,(abs(g[1]*g[3])+abs(g[0]*g[4]))/abs(d),0,0]
                ok=all(near(a,b,c) for a,b,c in zip(i,want,sc))
            C.expect(tag+'inv',g,o,'the inverse','inv',ok=ok)
    def num(): return rnd.choice([0.0,1.0,-1.0,rnd.uniform(-6e6,6e6),rnd.uniform(-1,1),3000.403,-3000.403,rnd.gauss(0,1)*10**rnd.randrange(-5,5)])
    def rgt(): 
        k=rnd.randrange(3); return [num(),abs(num()) or 1.0,0.0,num(),0.0,-(abs(num()) or 1.0)] if k else [num() for _ in range(6)]
    invs([rgt() for _ in range(300 if C.quick else 20000)]+[[1,2,3,4,4,6],[0]*6,[0,1e-8,0,0,0,1e-8],[5,0,1,6,1,0],[0,1e-7,0,0,0,-1e-7]])
    def pts(l,tag=''):
        for (g,x,y),o in zip(l,C.run_cases(exe,['pt %s %d %d'%(hx(g),x,y) for g,x,y in l])):
            w=o.split(' ')[1:]; d=g[1]*g[5]-g[2]*g[4]
            if abs(d)<1e-15: C.expect(tag+'pt',(g,x,y),o,'pt 3','pt'); continue
            ok=len(w)>=6 and w[0]=='0'
            if ok:
                p,q=unhex(w[1]),unhex(w[2]); ok=near(p,g[0]+g[1]*x+g[2]*y,abs(g[0])+abs(g[1]*x)+abs(g[2]*y)) and near(q,g[3]+g[4]*x+g[5]*y,abs(g[3])+abs(g[4]*x)+abs(g[5]*y))
                # rounding errors of the way back, in pixels
                m=sum(abs(v) for v in(g[0],g[3]))+abs(g[1]*x)+abs(g[2]*y)+abs(g[4]*x)+abs(g[5]*y); e=m*1e-15*8*max(abs(v) for v in(g[1],g[2],g[4],g[5]))/abs(d)
                if e<.4: ok=ok and (int(w[3]),int(w[4]))==(x,y)
                if w[5]=='transformed': ok=ok and near(unhex(w[6]),q,1,1e-9) and near(unhex(w[7]),p,1,1e-9)
                elif abs(p)<=170 and abs(q)<=85: ok=False
            C.expect(tag+'pt',(g,x,y),o,'the point, and the pixel again','pt',ok=ok)
    pts([(rgt(),rnd.randrange(-12000,12000),rnd.randrange(-12000,12000)) for _ in range(300 if C.quick else 20000)]+[([-5e6,3000.4,0,5.5e6,0,-3000.4],x,y) for x in(0,1,3711) for y in(0,1856)]+[([10,.05,0,60,0,-.05],rnd.randrange(400),rnd.randrange(400)) for _ in range(50)])
    def decs(l,tag=''):
        for g,o in zip(l,C.run_cases(exe,['dec '+hx(g) for g in l])):
            w=o.split(' ')[1:]; ok=len(w)==4
            if ok: ok=w[2:]==[bits(g[1]),bits(-g[5])] and all(abs(int(a)-b)<=.5+1e-9*abs(b) for a,b in((w[0],-g[0]/g[1]),(w[1],g[3]/-g[5])) if abs(b)<2**31-2)
            C.expect(tag+'dec',g,o,'the offsets and sizes','dec',ok=ok)
    decs([[rnd.uniform(-6e6,6e6),rnd.uniform(.5,9000),0,rnd.uniform(-6e6,6e6),0,-rnd.uniform(.5,9000)] for _ in range(200)])
    def boxes(l,tag=''):
        for (k,a,b,c,d),o in zip(l,C.run_cases(exe,['box %s %r %r %r %r'%x for x in l])):
            nz=int(any((a,b,c,d))); w=[min(a,c),max(a,c),min(b,d),max(b,d)] if k=='map' else [min(a,c),min(b,d),max(a,c)-min(a,c),max(b,d)-min(b,d)]
            g=o.split(' ')[1:]; C.expect(tag+'box',(k,a,b,c,d),o,' '.join(map(str,w+[nz])),'box',ok=len(g)==5 and [float(x) for x in g[:4]]==[float(x) for x in w] and g[4]==str(nz))
    bx=[(k,)+tuple(rnd.choice([0,0,5,-5,rnd.randrange(-4000,4000)])+(0 if k=='image' else rnd.choice([0,.25,rnd.random()])) for _ in range(4)) for k in('image','projected','map') for _ in range(100)]; boxes(bx)
    def inside(W,X,Y): return W[0]>=0 and W[1]>=0 and W[2]>0 and W[3]>0 and W[0]+W[2]<=X and W[1]+W[3]<=Y
    val=lambda b,x,y: b*100000000+y*10000+x
    def shown(kind,g,w,Z,size,n,X,Y):
        """w: what the harness printed about the view of window Z at `size`"""
        ok=w[:4]==[kind,str(size[0]),str(size[1]),str(n)] and len(w)==10+n
        if not ok: return False
        fx,fy=Z[2]/size[0],Z[3]/size[1]
        if g is None: ok=w[4:10] in(['none']*6,[bits(v) for v in(0.,1.,0.,0.,0.,1.)])
        else:
            e=[g[0]+Z[0]*g[1]+Z[1]*g[2],g[1]*fx,g[2]*fy,g[3]+Z[0]*g[4]+Z[1]*g[5],g[4]*fx,g[5]*fy]; sc=[abs(g[0])+abs(Z[0]*g[1])+abs(Z[1]*g[2]),0,0,abs(g[3])+abs(Z[0]*g[4])+abs(Z[1]*g[5]),0,0]; ok='none' not in w[4:10] and all(near(unhex(a),b,c) for a,b,c in zip(w[4:10],e,sc))
        for b in range(n):
            # nearest neighbour: the middle of a pixel of the view falls in the pixel shown
            cand=lambda i,f,z,lim: {min(lim-1,z+math.floor((i+.5)*f+t)) for t in(-1e-6,1e-6)}
            cs=[{val(b+1,x,y) for x in cand(0,fx,Z[0],X) for y in cand(0,fy,Z[1],Y)},{val(b+1,x,y) for x in cand(size[0]-1,fx,Z[0],X) for y in cand(size[1]-1,fy,Z[1],Y)}]
            p=w[10+b].split(','); ok=ok and len(p)==2 and all(q.lstrip('-').isdigit() and int(q) in c for q,c in zip(p,cs))
        return ok
    def wins(l,tag=''):
        for (X,Y,n,has,g,W,ox,oy),o in zip(l,C.run_cases(exe,['win %d %d %d %d %s %s %d %d'%(X,Y,n,has,hx(g),' '.join(map(str,W)),ox,oy) for X,Y,n,has,g,W,ox,oy in l])):
            w=o.split(' ')[1:]; Z=list(W)
            if W[2]==0 and W[3]==0: Z[2:]=[X,Y]
            inp='image %dx%d, %d bands, geotransform %s, window %s, size %s'%(X,Y,n,g if has else 'none',W,(ox,oy) if ox else 'of the window')
            if not inside(Z,X,Y): C.expect(tag+'window outside',inp,o,'win refused','win'); continue
            same=Z==[0,0,X,Y] and not(ox or oy); size=(ox,oy) if ox or oy else (Z[2],Z[3])
            C.expect(tag+'window',inp,o,'the window, where it lies in the image','win',ok=shown('same' if same else 'view',g if has else None,w,Z,size,n,X,Y))
    big=2**31-1
    def rwin():
        X,Y=rnd.randrange(1,60),rnd.randrange(1,60); x,y=rnd.randrange(X),rnd.randrange(Y); W=[x,y,rnd.randrange(1,X-x+1),rnd.randrange(1,Y-y+1)]
        k=rnd.randrange(10)
        if k==0: W[rnd.randrange(4)]=rnd.choice([-1,0,X+1,Y+1,big,-big-1,big-1])
        if k==1: W=[0,0,X,Y]
        if k==2: W=[0,0,0,0]
        if k==3: W=[X-1,Y-1,1,1]
        if k==4: W=[x,y,X-x,Y-y]
        r=rnd.randrange(3)==0
        return (X,Y,rnd.randrange(1,4),rnd.randrange(8)!=0,rgt(),W,rnd.randrange(1,30) if r else 0,rnd.randrange(1,30) if r else 0)
    wins([rwin() for _ in range(300 if C.quick else 10000)]+[(10,10,1,1,[0,1,0,0,0,-1],W,0,0) for W in([1,1,big,1],[1,1,1,big],[5,0,6,1],[0,5,1,6],[0,0,10,0],[0,0,0,10],[9,9,1,1],[9,9,2,1],[1,1,big,big],[-1,0,5,5])])
    def recs(l,tag=''):
        for (X,Y,B,sx,sy,mode),o in zip(l,C.run_cases(exe,['rec %d %d %s %d %d %d'%(X,Y,' '.join(map(str,B)),sx,sy,mode) for X,Y,B,sx,sy,mode in l])):
            Z=[B[0],B[1],B[2]-B[0],B[3]-B[1]] if mode<2 else [0,0,X,Y]; inp='image %dx%d, crop area %s, size %s'%(X,Y,B if mode<2 else 'all',(sx,sy) if mode else 'of the area')
            if Z[2]==0 and Z[3]==0: Z[2:]=[X,Y]
            if not inside(Z,X,Y): C.expect(tag+'recode',inp,o,'rec refused','rec'); continue
            C.expect(tag+'recode',inp,o,'the crop area at the size asked for','rec',ok=shown('made',[5,2,0,7,0,-3],o.split(' ')[1:],Z,(sx,sy) if mode else (Z[2],Z[3]),1,X,Y))
    rr=[]
    for _ in range(120 if C.quick else 4000):
        X,Y=rnd.randrange(1,50),rnd.randrange(1,50); l,t=rnd.randrange(X),rnd.randrange(Y); r,b=rnd.randrange(l+1,X+2),rnd.randrange(t+1,Y+2); rr.append((X,Y,[l,t,r,b],*rnd.choice([(r-l,b-t),(rnd.randrange(1,40),rnd.randrange(1,40)),(r-l,rnd.randrange(1,40))]),rnd.randrange(3)))
    recs(rr)
    def replay(case,r):
        k=case[0]
        if k=='gt': g=[dbl(x) for x in case[1]]; invs([g],'counterexample '); decs([g] if g[1] and g[5] and all(map(math.isfinite,g)) else [],'counterexample ')
        if k=='point': pts([([dbl(x) for x in case[1]],case[2],case[3])],'counterexample ')
        if k.startswith('box:'):
            v=case[1:]; m={'ImageBox':'image','ProjectedBox':'projected','MapBox':'map'}[k[4:]]; v=v if m=='image' else [dbl(x) for x in v]; boxes([(m,)+tuple(v)],'counterexample ')
        if k=='window':
            _,W,X,Y,out,n,g=case; g=[dbl(x) for x in g]; f=max(1,max(X,Y)//40); cl=lambda v: v//f
            wins([(x,y,min(n,3),1,gg,list(w),*o) for x,y,w in((X,Y,W),(max(1,cl(X)),max(1,cl(Y)),[cl(v) for v in W]),(20,30,[3,7,5,11])) if x*y<10**8 for gg in(g,[5,2,.5,7,.25,-3]) for o in((0,0),(9,4))],'counterexample ')
        if k=='recode': recs([(40,50,[3,7,20,31],17,24,m) for m in(0,1,2)]+[(40,50,[3,7,20,31],8,6,m) for m in(1,2)]+[(40,50,[3,7,20,31],17,6,1)],'counterexample ')
    return C.finish(replayer=replay,rule='random geotransforms, pixels, boxes, windows and crop areas on the real functions over a GDAL dataset made in memory; the corner pixels of every view are compared with the image')
if __name__=="__main__": main(check)
