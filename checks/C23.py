import re
from common import *
import strspec as S
def hx(b): return b.hex() or '-'
def check():
    C=Check('C23'); rnd=C.rnd
    C.unit('encode_cstring',S.unit_encode('cstring')); C.unit('encode_url',S.unit_encode('url'))
    C.unit('decode_base64, any text',S.unit_safe('base64'))
    C.unit('decode_cstring, closing quote',S.unit_decode('cstring','"')); C.unit('decode_cstring, end of text',S.unit_decode('cstring',''))
    for r in(0,1,2): C.unit('decode_base64, %d bytes beyond the last group'%r,S.unit_b64_decode(r))
    for r in(0,1,2): C.unit('encode_base64, %d bytes beyond the last group'%r,S.unit_b64_encode(r))
    C.unit('decode_url',S.unit_decode('url',''))
    for n in('url','cstring'): C.unit('decode_%s, any text'%n,S.unit_safe(n))
    for n in('lstrip','rstrip','strip'): C.unit(n,S.unit_trim(n))
    for n in('startswith','endswith'): C.unit(n,S.unit_affix(n))
    C.unit('codes',S.unit_tables)
    C.prove(os.environ.get('ONLY'))
    exe=C.native('text',[H('text.cpp'),S.SRC])
    SP=b' \t\n\v\f\r'
    def run(l,tag=''):
        """l: (function, text[, part])"""
        for t,o in zip(l,C.run_cases(exe,['%s %s'%(t[0],' '.join(hx(x) for x in t[1:])) for t in l])):
            f,a=t[0],t[1]; un=lambda x: bytes.fromhex(x) if x!='-' else b''
            if f.startswith('encode_'): want=hx(S.PYENC[f[7:]](a))
            elif f.startswith('any:'): continue
            elif f in('lstrip','rstrip','strip'): want=hx(getattr(a,f)(SP))
            elif f=='startswith': want=str(int(a.startswith(t[2])))
            elif f=='endswith': want=str(int(a.endswith(t[2])))
            else: want=t[2] if isinstance(t[2],str) else hx(t[2])
            C.expect(tag+f,' '.join(hx(x) if isinstance(x,bytes) else x for x in t[1:2]),o,want,f)
    def codecs(texts,tag=''):
        for n in('url','cstring','base64'):
            run([('encode_'+n,a) for a in texts],tag)
            ls=[(a,S.PYENC[n](a)) for a in texts]
            if n=='cstring':
                for tail,k in((b'',0),(b'"',1),(b'" \\x00 and more',1)):
                    for (a,e),o in zip(ls,C.run_cases(exe,['decode_cstring '+hx(e+tail) for a,e in ls])): C.expect(tag+'decode_cstring',hx(e+tail),o,'%s %d'%(hx(a),len(e)+k),'decode_cstring')
            else:
                for (a,e),o in zip(ls,C.run_cases(exe,['decode_%s %s'%(n,hx(e)) for a,e in ls])): C.expect(tag+'decode_'+n,hx(e),o,hx(a),'decode_'+n)
    def anytext(n,texts,tag=''):
        for a,o in zip(texts,C.run_cases(exe,['decode_%s %s'%(n,hx(a)) for a in texts])): C.expect(tag+'decode_%s of any text'%n,hx(a),o,'a text','any',ok=bool(re.fullmatch(r'(-|[0-9a-f]+)( \d+)?',o)))
    codecs([b'']+[bytes([c]) for c in range(256)]+[bytes([rnd.choice(b'a"\\%\n\x01\xff'),c]) for c in range(256)]+[bytes([c])+b'f0' for c in range(256)]+[rnd.randbytes(rnd.randrange(1,200 if C.quick else 5000)) for _ in range(100 if C.quick else 3000)])
    for n in('url','cstring','base64'): anytext(n,[bytes([c]) for c in range(256)]+[bytes(rnd.choice(b'%\\x"n={zA0') for _ in range(rnd.randrange(1,9))) for _ in range(300 if C.quick else 20000)]+[rnd.randbytes(rnd.randrange(1,30)) for _ in range(100)])
    tt=[b'']+[bytes([c]) for c in range(256)]+[bytes(rnd.choice(b' \t\n\x0bab\xa0\x85\x00') for _ in range(rnd.randrange(0,9))) for _ in range(300 if C.quick else 20000)]
    run([(f,a) for f in('lstrip','rstrip','strip') for a in tt])
    def parts(a): 
        k=rnd.randrange(len(a)+1); return [a[:k],a[k:],a,b'',a+b'x',b'x'+a,(a[:k-1]+bytes([a[k-1]^1]) if k else b'y'),a[1:]]
    run([(f,a,p) for f in('startswith','endswith') for a in tt[257:] for p in parts(a)])
    def replay(case,r):
        if case[0]=='text':
            ts=[case[2]]+list(case[3])
            if case[1] in('lstrip','rstrip','strip'): run([(case[1],a) for a in ts],'counterexample ')
            else: codecs(ts,'counterexample ')
        if case[0]=='any': anytext(case[1][7:],[case[2]],'counterexample ')
        if case[0]=='affix': run([(case[1],case[2],case[3])],'counterexample ')
    return C.finish(replayer=replay,rule='every byte alone and in context, random texts; encoding compared with the definition, decoding with the original')
if __name__=="__main__": main(check)
