from common import *
import omtpspec as O
SRCS=[O.D+x for x in('ByteSex.cc','FileHeader.cc','RecordHeader.cc','LineHeader.cc','ScanLine.cc','Record.cc','OpenMTP-IDS.cc')]
def check():
    C=Check('C14'); O.lay(); rnd=C.rnd
    for order in('big','little'):
        for n in(2,4,8):
            for k in range(1,n+1): C.unit('%s::write%d/read%d, %d bytes'%(order,n,n,k),O.unit_prim(order,n,k))
    for c in O.HEAD: C.unit(c+' written',O.unit_write(c)); C.unit(c+' read',O.unit_read(c)); C.unit(c+' cut short',O.unit_truncated(c)); C.unit(c+' constructor',O.unit_default(c)); C.unit(c+' accessors',O.unit_access(c))
    C.unit('ScanLine written',O.unit_line_write); C.unit('ScanLine read',O.unit_line_read)
    for c in O.SEQ: C.unit(c+' written',O.unit_seq_write(c)); C.unit(c+' read',O.unit_seq_read(c))
    C.prove(os.environ.get('ONLY'))
    exe=C.native('omtp',[H('omtp.cpp')]+SRCS,extra=('-DDSM_64BIT',))
    def heads(cls,vals,tag=''):
        lines=[];want=[]
        for v in vals:
            b=O.enc(cls,v); lines.append('%s %s'%(cls,b.hex())); want.append('%s %s @0 %s'%(cls,O.dump(cls,v),b.hex()) if cls!='FileHeader' or v['record_length']>=58 else 'FileHeader FAILED')
            s=dict(v)
            if 'satellite' in s:
                k=rnd.randrange(9); s['satellite']=[rnd.randrange(33,127) for _ in range(k)]+[0]*(8-k)
            if 'fortran' in s: s['fortran']=[0,1]
            t=[(bytes(s[m]).split(b'\0')[0].hex() or '-') if m=='satellite' else bytes(s[m]).hex() if tx else str(s[m]) for m,fo,w,tx in O.table(O.HEAD[cls])[0]]
            lines.append('set %s %s'%(cls,' '.join(t))); want.append('set %s %s'%(O.dump(cls,s),O.enc(cls,s).hex()))
        for l,o,w in zip(lines,C.run_cases(exe,lines),want): C.expect(tag+cls,l[:300],o.replace('  ',' '),w.replace('  ',' '),cls)
    for cls in O.HEAD: heads(cls,[O.rnd_head(rnd,cls) for _ in range(20 if C.quick else 1000)])
    def lines(ls,tag=''):
        for l,o in zip(ls,C.run_cases(exe,['ScanLine '+O.enc_line(l).hex() for l in ls])):
            b=O.enc_line(l); C.expect(tag+'ScanLine',b.hex()[:300],o,'ScanLine %s @0 %s'%(O.dump_line(l),b.hex()) if l[0]['length']>=16+len(l[1]) else 'ScanLine FAILED','ScanLine')
    ls=[O.rnd_line(rnd,k) for k in range(20 if C.quick else 400)]
    for d in(0,1,15): h,px=O.rnd_line(rnd,7); h['length']=16+len(px)-1 if d else 0; ls.append((h,px))
    h,px=O.rnd_line(rnd,9); px=rnd.randbytes(40000); h['no_pixels']=40000; h['length']=40100; ls.append((h,px)); lines(ls)
    def written(ls,tag=''):
        for (h,px),o in zip(ls,C.run_cases(exe,['line '+' '.join(str(h[m]) for m in O.LINE)+' '+px.hex() for h,px in ls])): C.expect(tag+'ScanLine written',str(h),o.strip(),('line '+O.enc_line((h,px)).hex()),'written')
    big=[]
    for n,ln in((0,0),(1,65535),(3,40000),(30000,65535),(33000,33016),(40000,65535),(60000,100),(5,16),(65535,65535)): h,px=O.rnd_line(rnd,1); h['no_pixels']=n; h['length']=ln; big.append((h,rnd.randbytes(n)))
    written(big); lines([x for x in big if x[0]['length']])
    def prims(l,tag=''):
        for (order,n,k,v),o in zip(l,C.run_cases(exe,['bs %s %d %d %d'%x for x in l])):
            low=v&((1<<8*k)-1); C.expect(tag+'byte order',str((order,n,k,v)),o,'bs %s %d'%(low.to_bytes(k,order).hex(),low),'bs')
    prims([(o,n,k,v) for o in('big','little') for n in(2,4,8) for k in range(1,n+1) for v in(0x0123456789abcdef&((1<<8*n)-1),(1<<8*n)-1,rnd.randrange(1<<8*n))])
    ps=[O.rnd_product(rnd) for _ in range(12 if C.quick else 300)]+[O.rnd_product(rnd,sizes=s) for s in([],[0],[2,0,1])]; d=build.workdir()
    for p,o in zip(ps,C.run_cases(exe,['file '+O.enc_product(p).hex() for p in ps])): b=O.enc_product(p).hex(); C.expect('product','%d records'%len(p[1]),o,'file %s @0 %s'%(O.dump_product(p),b),'product')
    for k,(p,o) in enumerate(zip(ps,C.run_cases(exe,['disk %s %s/omtp%d'%(O.enc_product(p).hex(),d,os.getpid()) for p in ps]))): b=O.enc_product(p).hex(); C.expect('product on disk','%d records'%len(p[1]),o,'disk %s %s missing'%(b,O.dump_product(p)),'disk')
    p=O.rnd_product(rnd,sizes=[2,1]); b=O.enc_product(p); cuts=[k for k in range(0,len(b),1 if not C.quick else 7)]
    for k,o in zip(cuts,C.run_cases(exe,['file '+b[:k].hex() for k in cuts])):
        # the harness adds two bytes: they are not a product's rest unless two bytes are missing
        if len(b)-k>2: C.expect('product cut short','%d of %d bytes'%(k,len(b)),o if o in('file THROW','file FAILED') else 'read',o if o in('file THROW','file FAILED') else 'reported','cut')
    p[0]['no_records']=0
    for o in C.run_cases(exe,['file '+O.enc_product(p).hex()]): C.expect('product without records','',o,'file THROW','norecords')
    def replay(case,r):
        if case[0]=='head': heads(case[1],[case[2]],'counterexample ')
        if case[0]=='prim': prims([case[1:]],'counterexample ')
        if case[0]=='line':
            written([(case[1],rnd.randbytes(case[1]['no_pixels']))],'counterexample ')
            n=case[1]['no_pixels']; lines([(case[1],rnd.randbytes(n))],'counterexample ')
    return C.finish(replayer=replay,rule='each header, line and product read, dumped and written again; each header set field by field and written')
if __name__=="__main__": main(check)
