import tempfile, shutil
from common import *
import xritname as S
def hx(b): return b.hex() or '-'
def check():
    C=Check('C13'); rnd=C.rnd
    for f in S.FORMS:
        for d in S.DIRS: C.unit('parse, %s form, %s'%(f,'no directory' if d=='none' else d),S.unit_parse(f,d,False))
        C.unit('FileAccess(name), %s form'%f,S.unit_parse(f,'directory',True)); C.unit('isValid, %s form'%f,S.unit_valid(f))
        for k in range(3 if f=='short' else 7):
            if f=='segment' and not k: continue
            for d in('directory','none'): C.unit('parse, %s form, %d separators, %s'%(f,k,'no directory' if d=='none' else d),S.unit_refused(f,d,k))
    for k in range(3):  C.unit('isValid, %d separators'%k,S.unit_valid('short',k)); C.unit('parse, %d characters'%k,S.unit_tiny(k))
    for h in('constructor','parse','itself'): C.unit('another channel, '+h,S.unit_channel(h))
    C.unit('deunderscore',S.unit_trim)
    for w in S.WIDTH:
        for l in(False,True): C.unit('underscoreit, %d, %s'%(w,'longer' if l else 'not longer'),S.unit_pad(w,l))
    C.unit('ensureComplete',S.unit_complete)
    for k in S.KIND:
        for w in('none','one','more') if k!='segment' else ('none','any'): C.unit('%s, %s found'%(S.KIND[k][0],w),S.unit_files(k,w))
        C.unit('%s, long product ids'%S.KIND[k][0],S.unit_files(k,'one' if k!='segment' else 'any',('productid1','productid2') if k=='segment' else ('productid1',)))
    C.prove(os.environ.get('ONLY'))
    exe=C.native('names',[H('names.cpp'),S.SRC],extra=['-D_GLIBCXX_ASSERTIONS']); plain=C.native('names_plain',[H('names.cpp'),S.SRC],extra=['-D_GLIBCXX_ASSERTIONS'],san=False) # the address sanitizer's own glob() fails with GLOB_DOOFFS
    def split(n):
        """components of a name, None if it lacks some"""
        if len(n)<3: return None
        i=n.rfind(b'/'); d=b'.' if i<0 else n[:i] or b'/'; r=n[i+1:]
        if n.endswith(b'-C_'):
            p=r.split(b'-')
            if len(p)<8: return None
            un=lambda x: x.rstrip(b'_') or x[:1]
            return [d,p[0],un(p[3]),un(p[4]),un(p[6])]
        p=r.split(b':',3); return [d]+p if len(p)==4 else None
    def names(l,tag=''):
        for f in('parse','new'):
            for n,o in zip(l,C.run_cases(exe,['%s %s'%(f,hx(n)) for n in l])):
                w=split(n); C.expect(tag+f,n,o,' '.join(hx(x) for x in w) if w else 'refused','parse')
        l=[n for n in l if split(n) or b'/' not in n]
        for n,o in zip(l,C.run_cases(exe,['valid '+hx(n) for n in l])): C.expect(tag+'isValid',n,o,str(int(len(n)>=3 and (n.endswith(b'-C_') or n.count(b':')>=3))),'valid')
    AL=b'ABCHLMSGRVW0123456789_.+,#x'
    def word(a,b,also=b''): return bytes(rnd.choice(AL+also) for _ in range(rnd.randrange(a,b)))
    def core(a,b):
        w=word(a,b); return w[:-1]+b'Z' if w.endswith(b'_') else w
    def direc(): return rnd.choice([b'',b'/',b'./',b'../',b'/a/b/',b'a:b/',b'a-b/c-d/',b'a:b:c:d/',b'/data/x-C_/',b'//',b'd__/',word(1,6,b':-/')+b'/'])
    N=400 if C.quick else 30000
    ns=[direc()+b':'.join([word(0,4,b'-'),word(0,14,b'-'),word(0,12,b'-'),word(0,14,b':')]) for _ in range(N)]
    def seg():
        u=lambda w,k: (core(1,k+1)+b'_'*20)[:k] if w else core(1,k+3)+b'_'*rnd.randrange(3)
        return direc()+b'-'.join([word(1,3),word(0,4),word(0,7),u(rnd.randrange(3),12),u(rnd.randrange(3),9),word(0,10),core(1,13)+b'_'*rnd.randrange(3),b'C_'])
    ns+=[seg() for _ in range(N)]
    ns+=[direc()+rnd.choice([b':',b'-']).join(word(0,5) for _ in range(rnd.randrange(1,9)))+rnd.choice([b'',b'-C_',b'-C_',b'-c_',b'C_',b'-C']) for _ in range(N)]+[b'',b'a',b'::',b':::',b'-C_',b'/-C_',b'C_',b'/:::',b'a/b',b'H-000-MSG1__-MSG1________-HRV______-000018___-200611141200-C_',b'H:MSG1:HRV:200611141200',b'H-000-X-_____-___-0-__-C_',b'H-0-X---0--C_']
    names(ns)
    def five(l): return ' '.join(hx(x) for x in l)
    l=[[word(0,6,b'/-:') for _ in range(6)] for _ in range(100)]
    def chans(l,tag=''):
        for a,o in zip(l,C.run_cases(exe,['channel '+five(a) for a in l])): b=a[:3]+[a[5],a[4]]; C.expect(tag+'another channel',a,o,' '.join(five(x) for x in(b,b,a[:5])),'channel')
    chans(l)
    def complete(l,tag=''):
        for a,o in zip(l,C.run_cases(exe,['complete '+five(a) for a in l])): C.expect(tag+'ensureComplete',a,o,'complete' if all(a) else 'refused','complete')
    complete([[word(1,5) if i>>k&1 else b'' for k in range(5)] for i in range(32)])
    # searches among real files, in a scratch directory
    top=tempfile.mkdtemp(prefix='names',dir=build.workdir()).encode()
    def pat(kind,c): # the documented names
        import re as r_
        pad=lambda x,n: x+b'_'*(n-len(x)); q=r_.escape
        mid=q(pad(c[2],12))+b'-'+{'prologue':b'_{9}-PRO______','epilogue':b'_{9}-EPI______','segment':q(pad(c[3],9))+b'-0.{5}___'}[kind]
        return q(c[1])+b'-.{3}-.{6}-'+mid+b'-'+q(c[4])+b'-'+(b'C_' if kind=='segment' else b'__')
    try:
        cases=[]; LET=b'ABH01'
        for t in range(40 if C.quick else 600):
            d=top+b'/%d'%t+rnd.choice([b'',b'-x',b':y']); os.mkdir(d); w=lambda a,b: bytes(rnd.choice(LET) for _ in range(rnd.randrange(a,b)))
            c=[d,w(1,2),w(1,16),w(1,13),w(1,13)]; pad=lambda x,n: x+b'_'*(n-len(x)); near=lambda x: rnd.choice([x]*5+[x+b'A',x[:-1],x[::-1],x+b'_'])
            for _ in range(60):
                k=rnd.randrange(3); p1=rnd.choice([pad(near(c[2]),12)]*4+[pad(c[2],12)[:12],pad(c[2],13),c[2]])
                mid=rnd.choice([b'_'*9]*4+[pad(near(c[3]),9)]) if k<2 else rnd.choice([pad(near(c[3]),9)]*4+[pad(c[3],9)[:9],pad(c[3],10),b'_'*9])
                sg=[b'PRO______',b'EPI______',b'0%05d___'%rnd.randrange(1,30)][k] if rnd.randrange(6) else rnd.choice([b'1%05d___'%rnd.randrange(30),b'PRO_____',b'0%04d____'%rnd.randrange(30),b'EPI______'])
                n=b'-'.join([near(c[1]) or b'A',b'%03d'%rnd.randrange(rnd.choice([2,2,1001])),rnd.choice([b'MSG1__',b'MSG2__',b'MSG___',b'MSG1_']),p1,mid,sg,near(c[4]),rnd.choice([[b'__',b'__',b'C_'][k]]*5+[b'C_',b'__'])])
                if len(n)<200: open(d+b'/'+n,'w').close()
            cases.append(c)
            if t%8==0: # exactly one prologue and epilogue
                for x in os.listdir(d): os.remove(d+b'/'+x)
                for x in(b'PRO______',b'EPI______'): open(d+b'/'+b'-'.join([c[1],b'000',b'MSG1__',pad(c[2],12),b'_'*9,x,c[4],b'__']),'w').close()
                for i in rnd.sample(range(1,30),9): open(d+b'/'+b'-'.join([c[1],b'000',b'MSG1__',pad(c[2],12),pad(c[3],9),b'0%05d___'%i,c[4],b'C_']),'w').close()
        import re as r_
        def files(l,tag=''):
            for kind in S.KIND:
                for c,o in zip(l,C.run_cases(plain,['%s %s'%(kind,five(c)) for c in l])):
                    rx=r_.compile(pat(kind,c),r_.S); f=sorted(c[0]+b'/'+x for x in os.listdir(c[0]) if rx.fullmatch(x)); ok=len(f)>=1 if kind=='segment' else len(f)==1
                    C.expect(tag+kind,[x.decode('latin1').replace(top.decode(),'SCRATCH') for x in c],o.replace(hx(top),hx(b'SCRATCH')),' '.join(hx(x.replace(top,b'SCRATCH')) for x in f) if ok else 'refused','files')
        files(cases)
        def replay(case,r):
            if case[0]=='name': names([case[1],case[1].replace(b'\0',b'x')],'counterexample ')
            if case[0]=='trim': names([b'H-000-MSG1__-'+t+b'-'+t+b'-000001___-200611141200-C_' for t in(case[1].replace(b'-',b'x').replace(b'/',b'x'),)],'counterexample ')
            if case[0]=='complete': complete([[b'x'*k for k in case[1]]],'counterexample ')
            if case[0]=='files': pass
        return C.finish(replayer=replay,rule='names in both forms, incomplete and malformed names, searches among real files with near misses; compared with the definition')
    finally: shutil.rmtree(top,ignore_errors=True)
if __name__=="__main__": main(check)
