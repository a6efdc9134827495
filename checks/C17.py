from common import *
import hrispec as S
def check():
    C=Check('C17'); S.lay(); rnd=C.rnd
    C.unit('format and band',S.unit_shape)
    for k in S.SHAPE: C.unit('pixels, %s format %s'%k,S.unit_store(*k))
    for s in S.SATS:
        for b in S.BANDS:
            for c in(0,1): C.unit('calibration of %s %s%s'%(s,b,' with coefficients' if c else ''),S.unit_cal(s,b,bool(c)))
    C.prove(os.environ.get('ONLY'))
    exe=C.native('hri_image',[H('hri_image.cpp'),S.D+'HRI_image.cpp'])
    def shape_text(f,b):
        if (f,b) not in S.SHAPE: return 'THROW'
        n,l,m=S.SHAPE[f,b]; return 'shape %d %d %g %g %s %s %d'%(n,l,m,m,S.UNIT[b],S.longname(f,b),S.BANDS.index(b))
    F=S.FORMATS+['?']; Bn=S.BANDS+['?']; ix=lambda f,b: '%d %d'%(F.index(f),Bn.index(b)); cs=[]
    for s in range(5):
        for f in F:
            for b in Bn: cs.append(('shape %d %s'%(s,ix(f,b)),shape_text(f,b)))
    for a in S.SHAPE:
        for b in S.SHAPE: cs.append(('shape 0 %s %s'%(ix(*a),ix(*b)),shape_text(*b)))
    cs.append(('shape 0 0 0 1 3','THROW'))
    for (l,w),o in zip(cs,C.run_cases(exe,[l for l,_ in cs])): C.expect('shape',l,o,w,'shape')
    def images(l,tag=''):
        for (f,b,ops),o in zip(l,C.run_cases(exe,['img 0 %s %s'%(ix(f,b),' '.join(' '.join(map(str,x)) for x in ops)) for f,b,ops in l])):
            im=S.Image(f,b); w=['img']+[im.run(x) for x in ops]; o=o.split(' ')
            for k,(g,e) in enumerate(zip(o+['nothing']*len(w),w)): C.expect(tag+'image %s %s'%(f,b),str(ops[:k])[-300:],g,e,'image')
    images([(f,b,S.rnd_ops(rnd,f,b,25 if C.quick else 60)) for f,b in S.SHAPE for _ in range(2 if C.quick else 40)])
    def cals(l,tag=''):
        for (s,b,k,cc,sc),o in zip(l,C.run_cases(exe,['cal %d %d %d %.9g %.9g'%(S.SATS.index(s),S.BANDS.index(b),k,cc,sc) for s,b,k,cc,sc in l])):
            w=o.split(' ')[1:]; want=S.cal_expect(s,b,k,cc,sc)
            for i,(g,e) in enumerate(zip(w+['nothing']*256,want)):
                try: ok=abs(float(g)-e)<=2e-4*max(1,abs(e))
                except ValueError: ok=False
                C.expect(tag+'calibration of %s %s'%(s,b),'count %d, calibration %s, %g, %g'%(i,'on' if k else 'off',cc,sc),g,'%.6g'%e,'cal',ok=ok)
    f32=lambda x: struct.unpack('<f',struct.pack('<f',x))[0]
    cals([(s,b,k,f32(rnd.choice([.0072,.07,.01,.5])*rnd.uniform(.5,2)),float(rnd.choice([0,5,6,4.5,rnd.randrange(20),255]))) for s in S.SATS for b in S.BANDS for k in(0,1) for _ in range(1 if C.quick else 20) if (s,b)!=('x','')])
    def replay(case,r):
        if case[0]=='put': f,b,m,extra,L,n=case[1:]; images([(f,b,[('P',L,n,1),('L',L)] if m=='put_line' else [('P',max(0,min(L,S.SHAPE[f,b][1]-1)),S.SHAPE[f,b][0],7),('H',L,n if n is not None and abs(n)<100000 else 3,9,extra[0]),('H',L,S.SHAPE[f,b][0]//2,9,extra[0]),('L',L)])],'counterexample ')
        if case[0] in('pixel','line'): f,b,L=case[1:4]; S_=S.SHAPE[f,b]; images([(f,b,[('P',max(0,min(L,S_[1]-1)),S_[0],7),('L',L)]+([('X',L,case[4])] if case[0]=='pixel' else []))],'counterexample ')
        if case[0]=='cal': cals([(case[1],case[2],int(case[3]),case[4],case[5])],'counterexample ')
    return C.finish(replayer=replay,rule='images filled by random sequences of stores and read back; every calibration table')
if __name__=="__main__": main(check)
