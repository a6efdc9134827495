from common import *
import omtpspec as O
SRCS=[O.D+x for x in('ByteSex.cc','FileHeader.cc','RecordHeader.cc','LineHeader.cc','ScanLine.cc','Record.cc','OpenMTP-IDS.cc')]
def check():
    C=Check('C15'); O.lay(); rnd=C.rnd
    C.unit('scanline(from,to)',O.unit_range); C.unit('scanline()',O.unit_all(False)); C.unit('scanline(line)',O.unit_all(True))
    C.prove(os.environ.get('ONLY'))
    exe=C.native('omtp',[H('omtp.cpp')]+SRCS,extra=('-DDSM_64BIT',))
    def run(prods,tag='',rng=None):
        lines=[];want=[];keys=[]
        for p in prods:
            h=O.enc_product(p).hex(); ls=[l for r in p[1] for l in r[1]]; T=len(ls); sz=','.join(str(len(r[1])) for r in p[1])
            qs=[('all',0,T)]+[('one %d'%k,k,k+1) for k in list(range(T+2))+[4294967294]]+[('%d %d'%(a,b),a,b) for a,b in (rng or [(a,b) for a in range(T+2) for b in range(T+3)]+[(0,4294967295),(4294967294,4294967295),(5,4294967295)])]
            for q,a,b in qs: lines.append('sel %s %s'%(h,q)); want.append('sel'+''.join(' L '+O.dump_line(l) for l in ls[a:b])); keys.append((sz,q))
        for l,o,w,k in zip(lines,C.run_cases(exe,lines),want,keys): C.expect(tag+'lines selected','records of %s lines, request %s'%k,o,w,'%s'%(k[1],))
    small=[[],[0],[1],[3],[0,0],[1,1],[2,0,3],[0,2],[2,1,2],[1,0,0,1]]
    run([O.rnd_product(rnd,sizes=s) for s in small]); run([O.rnd_product(rnd) for _ in range(6 if C.quick else 200)])
    def replay(case,r):
        if case[0]=='range' and case[3]<=300:
            T=case[3]; 
            for s in([T],[T//2,T-T//2],[1]*min(T,40)): run([O.rnd_product(rnd,sizes=s)],'counterexample ',[(case[1],case[2])])
    return C.finish(replayer=replay,rule='every request (each line, each range, all) on each product generated')
if __name__=="__main__": main(check)
