from common import *
import nativespec as N, tempfile
from reclib import RECS, members, gen, cmpmem
HDR=''.join('#include <msat/hrit/MSG_data_%s.h>\n'%c for c in N.HREC+N.TREC)+''.join('static int z%d=sizeof(MSG_data_%s);\n'%(i,c) for i,c in enumerate(N.HREC+N.TREC))
SRCS=lambda: [N.NAT+f for f in sorted(os.listdir(REPO+'/'+N.NAT)) if f.endswith('.cpp')]+['msat/hrit/'+f for f in sorted(os.listdir(REPO+'/msat/hrit')) if f.endswith('.cpp') and f.startswith('MSG_') and f not in('MSG_data_image.cpp','MSG_HRIT.cpp')]+['msat/facts.cpp',H('stub_image.cpp')]
def check():
    C=Check('C04'); N.lay(); lay=layout.dump(HDR)
    C.unit('IMPF_Packet_Header::read_from',N.unit_fixed('IMPF_Packet_Header','MSG_native_packetheader.cpp'))
    C.unit('MSG_native_lineheader::read_from',N.unit_fixed('MSG_native_lineheader','MSG_native_line.cpp'))
    C.unit('U_MARF_Header::read_from',N.unit_marf)
    for w in('header','trailer'): C.unit('MSG_native_%s::read'%w,N.unit_whole(w))
    C.unit('MSG_native_line::read',N.unit_line)
    C.prove(os.environ.get('ONLY'))
    exe=C.native('native',[H('native.cpp')]+SRCS(),extra=('-fno-strict-aliasing','-fno-sanitize=enum,bool')); rnd=C.rnd; cases=[]
    def obj(cls,b,o,tag):
        table,L=N.FIELDS[cls]; f=o.split(' ')
        if len(f)!=2 or o.startswith(('CRASH','HANG','THROWN')): C.expect(tag+cls,b.hex(),o,'a decoded object'); return
        bad=N.fields_ok(table,cls,b,bytes.fromhex(f[1])); C.expect(tag+cls+(' '+bad[0][0] if bad else ''),b.hex(),bad[0][1] if bad else '',bad[0][2] if bad else '')
    def objs(cls,l,tag=''):
        t={'IMPF_Packet_Header':'pkh','MSG_native_lineheader':'lh'}[cls]
        for b,o in zip(l,C.run_cases(exe,['%s %s'%(t,b.hex()) for b in l])): obj(cls,b,o,tag)
    for cls,(tb,L) in N.FIELDS.items(): objs(cls,[bytes(range(1,L+1)),b'\xff'*L,bytes(L)]+[rnd.randbytes(L) for _ in range(60 if C.quick else 2000)])
    def marf(l,tag=''):
        for b,o in zip(l,C.run_cases(exe,['marf '+b.hex() for b in l])): C.expect(tag+'text fields of the header',b.hex()[:200],o,'marf'+''.join(' t'+N.text(b,i).hex() for i in range(48)))
    marf([N.umarf(rnd) for _ in range(20 if C.quick else 300)])
    for b,o in zip([rnd.randbytes(N.MPH),b'A'*N.MPH],C.run_cases(exe,['marf '+b.hex() for b in(rnd.randbytes(N.MPH),b'A'*N.MPH)])): C.expect('text fields of an arbitrary header',b.hex()[:100],o[:5],'marf ')
    mems={c:members(lay,'MSG_data_'+c) for c in N.HREC+N.TREC}
    d=tempfile.mkdtemp(dir=build.workdir())
    def put(b):
        p=os.path.join(d,'n%d'%len(os.listdir(d))); open(p,'wb').write(b); return p
    def whole(b,e,what):
        o=C.run_cases(exe,['file '+put(b)],per=60.0)[0]
        if e is None: C.expect('unreadable file is refused',what,o[:60],'file EXC',ok=o.startswith('file') and o.endswith(' EXC')); return
        t=o.split(' ')
        if not C.expect('native file',what,(t[0],len(t)),('file',1+48+2+12+12+3*sum(map(len,e['lines'].values())))): return
        t=t[1:]
        C.expect('text fields of the header',what,t[:48],['t'+N.text(e['h'],i).hex() for i in range(48)])
        for x,b_ in zip(t[48:50],(e['head'],e['trail'])):
            bad=N.fields_ok(N.PKH,'IMPF_Packet_Header',b_,bytes.fromhex(x[1:])); C.expect('packet header',what,bad,[])
        for n,x in zip(N.HREC+N.TREC,t[50:62]): cmpmem(C,'MSG_data_'+n,mems[n],e['recs'][n],bytes.fromhex(x[1:]),what)
        i=62
        for c in range(12):
            ln=e['lines'][c]; on=e['sel'][c]=='X'; nl,nc=((e['hrvl'],e['hrvc']) if c==11 else (e['nl'],e['nc'])) if on else (0,0)
            im=b''.join(v.to_bytes(2,'little') for v in N.image(ln,nl,nc)).hex() if on else '-'
            C.expect('image of channel %d'%c,what,t[i],'c%d,%d,%d,%s'%(len(ln),nl,nc,im)); i+=1
            for p,h,dd in ln:
                bad=N.fields_ok(N.PKH,'IMPF_Packet_Header',p,bytes.fromhex(t[i][1:]))+N.fields_ok(N.LH,'MSG_native_lineheader',h,bytes.fromhex(t[i+1][1:])); C.expect('line record of channel %d'%c,what,(bad,t[i+2]),([],'d'+dd.hex())); i+=3
    for k in range(3 if C.quick else 30):
        nl=rnd.randint(1,4); b,e=N.native_file(rnd,gen,sel='XXXXXXXXXXXX' if k==0 else None,nl=nl,nc=4*rnd.randint(1,9),hrvc=4*rnd.randint(1,9)); whole(b,e,'file with %d lines, bands %s'%(nl,e['sel']))
    b,e=N.native_file(rnd,gen,sel='X-X--------X',nl=2,nc=10,extra=6); whole(b,e,'lines longer than announced')
    b,e=N.native_file(rnd,gen,sel='X-X--------X',nl=2,nc=8,hrvl=4); whole(b,e,'more high resolution lines than announced')
    b,e=N.native_file(rnd,gen,sel='-X---------X',nl=2,nc=8)
    for cut in(10,N.MPH+20,N.MPH+N.PK+1000,e['datapos']+30,e['trpos']-3 if False else e['trpos']+30): whole(b[:cut],None,'cut at %d'%cut)
    for at,v in((N.MPH+18,N.H15+14),(e['trpos']+18,N.T15+16),(e['datapos']+18,41),(e['datapos']+18,0)): whole(b[:at]+v.to_bytes(4,'big')+b[at+4:],None,'packet length %d at %d'%(v,at))
    def replay(case,r):
        cls,b=case
        if cls in N.FIELDS: objs(cls,[b],'counterexample ')
    return C.finish(replayer=replay,rule='one decoded header, line header, text header or whole file per evaluation; distinct by content')
main(check)
