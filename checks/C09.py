from common import *
import factspec as F, math
def check():
    C=Check('C09')
    C.unit('scaling factor, size and diameter conversions are inverse',F.unit_grid); C.unit('axes and intermediate forms agree',F.unit_axes)
    C.prove(os.environ.get('ONLY'))
    exe=C.native('facts',[H('facts.cpp'),F.SRC]); rnd=C.rnd; cases=[]; K=[13642337/65536,40927000/65536]; P=[3000.40307617188,1000.13433837891]; R=42164.0-6378.1370
    N=1 if C.quick else 40
    cf=K+[-k for k in K]+[k*(1+e) for k in K for e in(1e-9,-1e-9,1e-6,-1e-6,1e-4,-1e-4,.01,-.01)]+[rnd.choice([-1,1])*rnd.uniform(1,3000) for _ in range(300*N)]+[rnd.choice([-1,1])*10**rnd.uniform(-1.4,4.4) for _ in range(300*N)]+[13642337*s*d/65536 for s in(1,-1) for d in(2,3,.5,.25)]
    def known(c):
        for k in K:
            for s in(1,-1):
                if abs(c-s*k)*65536<=.5000001: return s*k
    def size(c):
        for k,p in zip(K,P):
            for s in(1,-1):
                if abs(c-s*k)*65536<=.5: return s*p
        return R*math.tan(math.pi/180/c)*1000
    for c in cf: cases.append(('rt_cfac',c))
    ps=P+[-p for p in P]+[rnd.choice([-1,1])*rnd.uniform(100,50000) for _ in range(300*N)]+[p+e for p in P for e in(.0005,-.0005,.002,-.002,1,-1)]
    for p in ps: cases.append(('rt_psx',p))
    dx=list(range(1,4000,7 if C.quick else 1))+[3608,3622,3607,3609,3621,3623,10866,10867,10824]+[-k for k in(1,3608,3622,3712)]+[rnd.randint(1,2**31-1)*rnd.choice([-1,1]) for _ in range(300*N)]+[2**31-1,-2**31]
    for n in dx: cases.append(('rt_dx',n))
    for n in [k for k in dx if 0<abs(k)<=40000]: cases.append(('rt_dxps',n))
    outs=C.run_cases(exe,['%s %r'%c for c in cases])
    for (f,x),o in zip(cases,outs):
        try: v=[float(t) for t in o.split()]
        except ValueError: C.expect(f,x,o,'numbers'); continue
        if f=='rt_cfac':
            k=known(x); want=k if k is not None else x; w=size(x)
            ok=all(abs(t-want)<=(1e-12 if k is None else 1e-12)*abs(want) or (k is None and any(abs(x-s*q)<1.02e-6*q and abs(t-s*q)<1e-9 for q in K for s in(1,-1))) for t in v[:2]) and all(abs(t-w)<=1e-9*abs(w) for t in v[2:])
            C.expect(f,x,o,'%r %r'%(want,w),ok=len(v)==4 and ok)
        elif f=='rt_psx':
            ok=all(abs(t-x)<=1e-9*abs(x) or any(abs(x-s*p)<.00101 and t==s*p for p in P for s in(1,-1)) or abs(t-x)<=1.2e-7*abs(x) and any(abs(abs(x)-p)<.01 for p in P) for t in v)
            C.expect(f,x,o,x,ok=len(v)==2 and ok)
        elif f=='rt_dx':
            w=x*math.pi/(math.asin(6378.1370/42164.0)*360); C.expect(f,x,o,'%d x4, %r'%(x,w),ok=len(v)==5 and all(t==x for t in v[:4]) and abs(v[4]-w)<=1e-12*abs(w))
        else:
            want=3622 if x==3608 else x; C.expect(f,x,o,'%d %d'%(want,want),ok=o=='%d %d'%(want,want))
    return C.finish(rule='one round trip through the conversions; distinct by function and argument')
main(check)
