from common import *
import timespec as T, calendar
def check():
    C=Check('C06'); T.lay()
    for c in('MSG_time_cds_short','MSG_time_cds','MSG_time_cds_expanded'):
        C.unit(c+': fields and instant',T.unit_fields(c)); 
        for a in(3,4,5) if c!='MSG_time_cds_short' else(3,):
            for b in(3,4,5) if c=='MSG_time_cds_expanded' else(3,):
                C.unit(c+': calendar text (%d,%d digits)'%(a,b),T.unit_text(c,nd=(a,b)))
        C.unit(c+': calendar text as char*',T.unit_text(c,'get_timechar'))
    C.unit('MSG_time_cuc',T.unit_cuc); C.unit('MSG_time_generalized',T.unit_gen)
    C.prove(os.environ.get('ONLY'))
    exe=C.native('times',[H('times.cpp'),T.SRC,'msat/hrit/MSG_machine.cpp']); rnd=C.rnd; cases=[]; N=1 if C.quick else 30
    days=[0,1,58,59,60,364,365,366,4382,4383,4384,15339,15340,15706,18262,18321,18322,32767,32768,51543,51602,51603,65534,65535]; mss=[0,1,999,1000,1001,59999,60000,86399999,86400000,3599999,3600000,43200000,2**31-1,2**31,2**32-1]
    def add(cls,d,ms,u=0,n=0): cases.append((cls,d.to_bytes(2,'big')+ms.to_bytes(4,'big')+(u.to_bytes(2,'big') if T.LEN[cls]>6 else b'')+(n.to_bytes(2,'big') if T.LEN[cls]>8 else b'')))
    for cls in('MSG_time_cds_short','MSG_time_cds','MSG_time_cds_expanded'):
        for d in days:
            for ms in mss: add(cls,d,ms,rnd.choice([0,1,9,10,99,100,999]),rnd.choice([0,7,45,999]))
        for _ in range(400*N): add(cls,rnd.randint(0,65535),rnd.randint(0,86399999),rnd.randint(0,999),rnd.randint(0,999))
        for u in(1000,9999,10000,65535): add(cls,20000,12345,u,u)
    for _ in range(200*N): cases.append(('MSG_time_cuc',rnd.randbytes(7)))
    for b in(bytes(7),b'\xff'*7,bytes(range(1,8)),b'\0\0\0\1\x80\0\0'): cases.append(('MSG_time_cuc',b))
    for _ in range(300*N):
        y,m=rnd.choice([rnd.randint(1901,2099),2000,1999,2004]),rnd.randint(1,12); cases.append(('MSG_time_generalized',b'%04d%02d%02d%02d%02d%02dZ'%(y,m,rnd.randint(1,calendar.monthrange(y,m)[1]),rnd.randint(0,23),rnd.randint(0,59),rnd.randint(0,59))))
    def run(cs,tag=''):
        for (c,b),o in zip(cs,C.run_cases(exe,['%s %s'%(c,b.hex()) for c,b in cs])):
            w=T.oracle(c,b); ok=None
            if c=='MSG_time_cuc':
                try: x=o.split(); y=w.split(); ok=len(x)==4 and x[0]==y[0] and x[2:]==y[2:] and abs(float(x[1])-float(y[1]))<=2e-15*abs(float(y[1]))
                except ValueError: ok=False
            C.expect(tag+c,b.hex(),o,w,ok=ok)
    run(cases)
    def replay(case,r):
        c,b=case
        if c=='MSG_time_generalized' and not b[:14].isdigit(): return
        try: run([(c,bytes(b))],'counterexample ')
        except ValueError: pass
    return C.finish(replayer=replay,rule='one time code decoded and rendered; distinct by class and bytes')
main(check)
