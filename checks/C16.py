from common import *
import hrispec as S
SRCS=[S.D+x for x in('HRI_machine.cpp','HRI_subframe_label.cpp','HRI_subframe_identification.cpp','HRI_subframe_interpretation.cpp','HRI_subframe_keyslot.cpp')]
def check():
    C=Check('C16'); S.lay(); rnd=C.rnd; os.environ['TZ']='UTC'
    for n in('i2_from_buff','i4_from_buff','i2_from_char3','i2_from_char2'): C.unit(n,S.unit_int(n))
    for n in S.DEC:
        if n[0]=='r': C.unit(n,S.unit_dec(n))
    C.unit('r4_from_buff',S.unit_ibm('r4_from_buff'))
    for k in range(0,57,19): C.unit('r8_from_buff, from %d leading zero bits'%k,S.unit_ibm('r8_from_buff',k,k+19))
    C.unit('label',S.unit_fields('HRI_subframe_label','HRI_subframe_label.cpp',S.LABEL,24,extra=S.label_extra))
    C.unit('interpretation',S.unit_fields('HRI_subframe_interpretation','HRI_subframe_interpretation.cpp',S.INTERP,1360,extra=S.mesg_extra))
    C.unit('key slots',S.unit_keys)
    for n,a,b in(('METEOSAT',(212,212),(0,255)),('GOES-E',(0,0),(0,0)),('other satellites',(0,0),(1,3)),('unknown second byte',(0,0),(4,255)),('unknown first byte',(1,211),(0,255)),('unknown first byte above',(213,255),(0,255))): C.unit('identification, '+n,S.unit_ident(a,b))
    C.prove(os.environ.get('ONLY'))
    exe=C.native('hri',[H('hri.cpp')]+SRCS)
    kind={v[0]:k for k,v in S.KINDS.items()}
    def fields(l,tag=''):
        for (name,b),o in zip(l,C.run_cases(exe,['field %s %s'%(n,b.hex()) for n,b in l])):
            try: ok,want=S.compare(kind[name],b,o[6:])
            except ValueError: ok,want=False,'a number'
            C.expect(tag+name,b.hex(),o[6:],want,name,ok=ok)
    fields([(n,S.rnd_field(rnd,kind[n])) for n in S.WIDTH for _ in range(300 if C.quick else 20000)])
    for n in('i2_from_char2','i2_from_char3','r4_from_char3','r4f_from_char3'):
        import itertools
        fields([(n,bytes(t)) for t in itertools.product([32]+list(range(48,58)),repeat=S.WIDTH[n])])
    def records(cls,l,tag=''):
        n,T=S.REC[cls]
        for b,o in zip(l,C.run_cases(exe,['%s %s'%(cls,b.hex()) for b in l])):
            w=o.split(' ')[1:]
            if len(w)!=len(T)+1: C.expect(tag+cls,b.hex(),o,'a record',cls); continue
            for (m,off,k),g in zip(T,w): ok,want=S.compare(k,b[off:off+S.width(k)],g); C.expect(tag+m,b.hex(),g,want,m,ok=ok)
            if cls=='HRI_subframe_label': C.expect(tag+'label predicates',b.hex(),w[-1],''.join(str(int((b[a]&q)!=0 if v is None else b[a]==v)) for _,a,v,q in S.PRED),'predicates')
            else: C.expect(tag+'administrative message',b.hex(),w[-1],'same','message')
    for cls in S.REC: records(cls,[S.rnd_record(rnd,cls) for _ in range(60 if C.quick else 2000)])
    def others(cls,l,f,tag=''):
        for b,o in zip(l,C.run_cases(exe,['%s %s'%(cls,b.hex()) for b in l])): C.expect(tag+cls,b.hex(),o,f(b),cls)
    others('HRI_subframe_identification',[S.rnd_ident(rnd) for _ in range(200 if C.quick else 5000)]+[S.rnd_ident(rnd,bytes(s)) for s in((0,4),(1,1),(255,255),(0,255),(211,241),(213,0))]+[S.rnd_ident(rnd,bytes((212,k))) for k in range(256)],S.ident_expect)
    def rk(): return b''.join(bytes([rnd.choice([0,1,255,128])])+rnd.randbytes(11) for _ in range(120))
    others('HRI_subframe_keyslot',[rk() for _ in range(5 if C.quick else 200)],S.keys_expect)
    def replay(case,r):
        if case[0]=='field': fields([(case[1],case[2])],'counterexample ')
        if case[0]=='record':
            cls,b=case[1:]
            if cls in S.REC: records(cls,[b],'counterexample ')
            elif cls=='HRI_subframe_keyslot': others(cls,[b],S.keys_expect,'counterexample ')
            else: others(cls,[b],S.ident_expect,'counterexample ')
    return C.finish(replayer=replay,rule='each numeric field and each subframe decoded from an exact-size buffer')
if __name__=="__main__": main(check)
