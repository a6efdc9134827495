from common import *
import nativespec as N
SRCS=lambda: [N.NAT+f for f in sorted(os.listdir(REPO+'/'+N.NAT)) if f.endswith('.cpp')]+['msat/hrit/'+f for f in sorted(os.listdir(REPO+'/msat/hrit')) if f.endswith('.cpp') and f.startswith('MSG_') and f not in('MSG_data_image.cpp','MSG_HRIT.cpp')]+['msat/facts.cpp',H('stub_image.cpp')]
def check():
    C=Check('C05'); N.lay()
    for r in range(5):
        for g in(False,True): C.unit('to_sample, %s, length 5n+%d'%('buffer of the caller' if g else 'new buffer',r),N.unit_unpack(g,r))
    C.prove(os.environ.get('ONLY'))
    exe=C.native('native',[H('native.cpp')]+SRCS(),extra=('-fno-strict-aliasing','-fno-sanitize=enum,bool')); rnd=C.rnd
    cases=[rnd.randbytes(n) for n in list(range(0,41))+[4640,4641,4644]]+[b'\xff'*n for n in range(1,12)]
    for k in range(40): b=bytearray(5+k//8); b[k//8]|=0x80>>k%8; cases.append(bytes(b))
    cases+=[rnd.randbytes(rnd.randint(0,3000)) for _ in range(20 if C.quick else 500)]
    def run(l,tag=''):
        for b,o in zip(l,C.run_cases(exe,['unpack '+b.hex() for b in l])):
            n=len(b)*8//10; w='%d %s'%(n,b''.join(N.bits10(b,i).to_bytes(2,'little') for i in range(n)).hex()); C.expect(tag+'samples',b.hex()[:200],o,'unpack %s %s'%(w,w))
    run(cases)
    def replay(case,r): run([case[1]],'counterexample ')
    return C.finish(replayer=replay,rule='one line of packed samples per evaluation, unpacked into a new buffer and into a given one')
main(check)
