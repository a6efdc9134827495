"""std::string by contract (texts of any length), and the text codecs and helpers of msat/utils/string (C23)."""
import re, z3, build
from sym import *
from exec import DeadPath
import models
STR=r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
B8=z3.BitVecSort(8); B64=z3.BitVecSort(64)
BIG=1<<62; MAXLEN=1<<60
def c64(n): return z3.BitVecVal(n,64)
def nrm(x): return norm(z3.simplify(x)) if isinstance(x,z3.ExprRef) else x
def one(vm,st,p):
    r=vm.resolve(st,p)
    if len(r)!=1: raise Unsupported('conditional string')
    return r[0][1]
def data(vm,st,p):
    """(pointer to the characters, length) of the string at p"""
    q=one(vm,st,p); vm.chk(st,True,q,16,'string'); d=vm.read(st,q.obj,q.off,8); n=vm.read(st,q.obj,off_add(q.off,8),8)
    if d is UNDEF or not isptr(d) or n is UNDEF: raise Unsupported('string in an unknown state')
    d=one(vm,st,d)
    if not isinstance(d,Ptr) or d.obj is None: raise Unsupported('string in an unknown state')
    return d,n
def put(vm,st,p,d,n):
    q=one(vm,st,p); vm.chk(st,True,q,16,'string'); vm.write(st,q.obj,q.off,8,d); vm.write(st,q.obj,off_add(q.off,8),8,nrm(n))
def fresh_text(vm,st,name='text'): return Ptr(vm.new(st,name,BIG,'heap',z3.Array(fname('text'),B64,B8)),0)
def new_string(vm,st,name='string'):
    o=vm.new(st,name,32,'heap'); put(vm,st,Ptr(o,0),fresh_text(vm,st),0); return Ptr(o,0)
def text(vm,st,name='text',const=True,maxlen=MAXLEN):
    """an arbitrary text: (pointer to the string, characters, length)"""
    A=z3.Array(name,B64,B8); n=z3.BitVec('len_'+name,64); st.assume(z3.ULE(n,maxlen)); st.assume(z3.Select(A,n)==0)
    d=vm.new(st,name,nrm(n+1),'heap',A,const=const); o=vm.new(st,name+' string',32,'heap'); vm.write(st,o,0,8,Ptr(d,0)); vm.write(st,o,8,8,n); return Ptr(o,0),A,n
def cap(n): return bv(n,64)
def isint(x): return isinstance(x,int)
def decide_len(vm,st,n,hi=64):
    """n as a number if it can be only one small number"""
    n=nrm(n)
    if isint(n): return n
    return n
def clen(vm,st,q):
    b=models.cstr_bytes(vm,st,q)
    if b is not None: return len(b)
    for i in range(256):
        x=vm.read(st,q.obj,off_add(q.off,i),1)
        if isint(x):
            if x==0: return i
            continue
        if x is UNDEF: raise Unsupported('text not terminated')
        if vm.must(st,x!=0): continue
        if vm.must(st,x==0): return i
        raise Unsupported('length of a C string of unknown content')
    raise Unsupported('long C string')
def append(vm,st,p,src,n):
    d,m=data(vm,st,p)
    if isint(n):
        bs=[vm.read(st,src.obj,off_add(src.off,i),1) for i in range(n)]
        if n: vm.chk(st,True,src,n,'appended text')
        for i,b in enumerate(bs): vm.write(st,d.obj,nrm(bv(off_add(d.off,i),64)+bv(m,64)),1,b)
    else: vm.memcpy(st,Ptr(d.obj,nrm(bv(d.off,64)+bv(m,64))),src,n)
    put(vm,st,p,d,bv(m,64)+bv(n,64)); return p
def sel(vm,st,p,f):
    """f for each alternative of a conditional pointer"""
    r=vm.resolve(st,p)
    if len(r)==1: return f(st,r[0][1])
    out=[]
    for c,q in r:
        s=st.fork(); s.assume(zbool(c))
        try: v=f(s,q)
        except DeadPath: continue
        out+=v if isinstance(v,list) and all(isinstance(o,Outcome) for o in v) else [Outcome('ret',s,v)]
    return out
def app_c(vm,st,a,I):
    """text of a C string appended; conditional pointers to texts of one length are merged"""
    p=as_ptr(a[1]); r=p.alts if isinstance(p,PtrIte) else []
    if len(r)>1 and all(isinstance(q,Ptr) and q.obj is not None for c,q in r):
        bs=[models.cstr_bytes(vm,st,q) for c,q in r]
        if all(b is not None for b in bs) and len({len(b) for b in bs})==1:
            d,m=data(vm,st,a[0]); n=len(bs[0])
            for i in range(n):
                v=c8(bs[-1][i])
                for (c,q),b in zip(r[:-1],bs): v=z3.If(zbool(c),c8(b[i]),v)
                vm.write(st,d.obj,nrm(bv(off_add(d.off,i),64)+bv(m,64)),1,v)
            put(vm,st,a[0],d,bv(m,64)+n); return a[0]
    return sel(vm,st,a[1],lambda s,q: append(vm,s,a[0],q,clen(vm,s,q)))
def c8(x): return z3.BitVecVal(x,8) if isint(x) else x
def byte(x): return x&255 if isint(x) else nrm(z3.Extract(7,0,x)) if x.size()>8 else x
def push(vm,st,p,c):
    d,m=data(vm,st,p); vm.write(st,d.obj,nrm(bv(d.off,64)+bv(m,64)),1,byte(c)); put(vm,st,p,d,bv(m,64)+1); return p
def terminate(vm,st,p):
    d,m=data(vm,st,p)
    if d.obj.const: return d,m
    vm.write(st,d.obj,nrm(bv(d.off,64)+bv(m,64)),1,0); return d,m
def throw(vm,st,what): return models.throw(vm,st,what)
OOR='_ZTISt12out_of_range'
def substr(vm,st,a,I,dst=None,src=None,pos=None,n=None):
    dst,src,pos,n=a[0],a[1],a[2],a[3]
    d,m=data(vm,st,src); out=[]; P,M,N=bv(pos,64),bv(m,64),bv(n,64)
    good=z3.ULE(P,M)
    if not vm.must(st,good):
        s2=st.fork(); s2.assume(z3.Not(good))
        if vm.feasible(st,z3.Not(good)): out.append(throw(vm,s2,OOR))
        if not vm.feasible(st,good): return out
        st=st.fork() if out else st; st.assume(good)
    left=M-P
    L=n if vm.must(st,z3.ULE(N,left)) else left if vm.must(st,z3.ULE(left,N)) else z3.If(z3.ULE(N,left),N,left)
    L=nrm(L); t=fresh_text(vm,st); put(vm,st,dst,t,0)
    append(vm,st,dst,Ptr(d.obj,nrm(bv(d.off,64)+P)),L); return out+[Outcome('ret',st,dst if I is not None and I.ty.k=='ptr' else None)]
def ctor(f):
    def c(vm,st,a,I):
        put(vm,st,a[0],fresh_text(vm,st),0); r=f(vm,st,a,I)
        return r if isinstance(r,list) else None
    return c
def copy_from(vm,st,dst,src):
    d,m=data(vm,st,src); return append(vm,st,dst,d,m)
def assign_copy(vm,st,a,I):
    if one(vm,st,a[0])==one(vm,st,a[1]): return a[0]
    d,m=data(vm,st,a[1]); put(vm,st,a[0],fresh_text(vm,st),0); append(vm,st,a[0],d,m); return a[0]
def move_from(vm,st,a,I):
    d,m=data(vm,st,a[1]); put(vm,st,a[0],d,m); put(vm,st,a[1],fresh_text(vm,st),0); return a[0]
def at(vm,st,a,I):
    d,m=terminate(vm,st,a[0]) if not vm.must(st,z3.ULT(bv(a[1],64),bv(data(vm,st,a[0])[1],64))) else data(vm,st,a[0])
    vm.oblige(st,z3.ULE(bv(a[1],64),bv(m,64)),'the index of a string is at most its length at %s'%vm.here(),'memsafe'); st.assume(z3.ULE(bv(a[1],64),bv(m,64)))
    return Ptr(d.obj,nrm(bv(d.off,64)+bv(a[1],64)))
def resize(vm,st,a,I,c=0):
    d,m=data(vm,st,a[0]); n=a[1]
    if not vm.must(st,z3.ULE(bv(n,64),bv(m,64))): raise Unsupported('string made longer by resize')
    put(vm,st,a[0],d,n)
def fill(vm,st,dst,n,c):
    d,m=data(vm,st,dst); vm.memset(st,Ptr(d.obj,nrm(bv(d.off,64)+bv(m,64))),c,n) if not isint(n) else [vm.write(st,d.obj,nrm(bv(off_add(d.off,i),64)+bv(m,64)),1,byte(c)) for i in range(n)]; put(vm,st,dst,d,bv(m,64)+bv(n,64)); return dst
def equal(vm,st,A,a,B,b):
    """(is the same text) for texts A of length a and B of length b: a Boolean that is true exactly when they agree; ghost positions make both directions usable"""
    e=z3.Bool(fname('sametext')); w=z3.BitVec(fname('differ'),64); a,b=bv(a,64),bv(b,64); rd=lambda p,k: bv(vm.read(st,p.obj,nrm(bv(p.off,64)+k),1),8)
    st.assume(z3.Implies(e,a==b)); st.assume(z3.Implies(z3.And(z3.Not(e),a==b),z3.And(z3.ULT(w,a),rd(A,w)!=rd(B,w))))
    for q in vm.__dict__.get('positions',[]): st.assume(z3.Implies(z3.And(e,z3.ULT(q,a)),rd(A,q)==rd(B,q)))
    vm.__dict__.setdefault('witness',[]).append(w); return e
def cmp_(f):
    """result of a comparison function: zero exactly when the texts are the same"""
    def c(vm,st,a,I):
        e=f(vm,st,a); x=z3.BitVec(fname('order'),32); st.assume((x==0)==e); return x
    return c
def sub_of(vm,st,p,pos,n):
    d,m=data(vm,st,p)
    if not vm.must(st,z3.ULE(bv(pos,64),bv(m,64))): raise Unsupported('compare beyond the end')
    left=bv(m,64)-bv(pos,64); return Ptr(d.obj,nrm(bv(d.off,64)+bv(pos,64))),nrm(z3.If(z3.ULE(bv(n,64),left),bv(n,64),left))
def install(vm,prog):
    S=STR
    T=[(r'basic_string\(\)$',ctor(lambda v,s,a,I:None)),
     (r'basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$',ctor(lambda v,s,a,I:append(v,s,a[0],one(v,s,a[1]),a[2]) and None)),
     (r'basic_string(<std::allocator<char>>)?\(char const\*, std::allocator<char> const&\)$',ctor(lambda v,s,a,I:app_c(v,s,a,I))),
     (r'basic_string(<.*>)?\(unsigned long, char, std::allocator<char> const&\)$',ctor(lambda v,s,a,I:fill(v,s,a[0],a[1],a[2]) and None)),
     (r'basic_string\(%s const&\)$'%re.escape(S),ctor(lambda v,s,a,I:copy_from(v,s,a[0],a[1]) and None)),
     (r'basic_string\(%s const&, unsigned long\)$'%re.escape(S),lambda v,s,a,I:substr(v,s,list(a)+[(1<<64)-1],I)),
     (r'basic_string\(%s const&, unsigned long, unsigned long\)$'%re.escape(S),lambda v,s,a,I:substr(v,s,a,I)),
     (r'basic_string\(%s&&\)$'%re.escape(S),lambda v,s,a,I:move_from(v,s,a,I) and None),
     (r'~basic_string\(\)$',lambda v,s,a,I:None),
     (r'operator=\(%s const&\)$'%re.escape(S),assign_copy),(r'assign\(%s const&\)$'%re.escape(S),assign_copy),(r'operator=\(%s&&\)$'%re.escape(S),move_from),
     (r'(operator=|assign)\(char const\*\)$',lambda v,s,a,I:(put(v,s,a[0],fresh_text(v,s),0),app_c(v,s,a,I))[1]),
     (r'operator=\(char\)$',lambda v,s,a,I:(put(v,s,a[0],fresh_text(v,s),0),push(v,s,a[0],a[1]))[1]),
     (r'operator\+=\(char\)$',lambda v,s,a,I:push(v,s,a[0],a[1])),(r'push_back\(char\)$',lambda v,s,a,I:push(v,s,a[0],a[1]) and None),
     (r'(operator\+=|append)\(char const\*\)$',app_c),(r'append\(char const\*, unsigned long\)$',lambda v,s,a,I:append(v,s,a[0],one(v,s,a[1]),a[2])),
     (r'append\(unsigned long, char\)$',lambda v,s,a,I:fill(v,s,a[0],a[1],a[2])),
     (r'(operator\+=|append)\(%s const&\)$'%re.escape(S),lambda v,s,a,I:copy_from(v,s,a[0],a[1])),
     (r'(size|length)\(\) const$',lambda v,s,a,I:data(v,s,a[0])[1]),(r'empty\(\) const$',lambda v,s,a,I:(lambda m:m==0 if isint(m) else simp(m==0))(data(v,s,a[0])[1])),
     (r'(c_str\(\) const|data\(\) const|data\(\))$',lambda v,s,a,I:terminate(v,s,a[0])[0]),
     (r'c?begin\(\)( const)?$',lambda v,s,a,I:data(v,s,a[0])[0]),(r'c?end\(\)( const)?$',lambda v,s,a,I:(lambda d,m:Ptr(d.obj,nrm(bv(d.off,64)+bv(m,64))))(*data(v,s,a[0]))),
     (r'operator\[\]\(unsigned long\)( const)?$',at),
     (r'front\(\)( const)?$',lambda v,s,a,I:at(v,s,[a[0],0],I)),(r'back\(\)( const)?$',lambda v,s,a,I:at(v,s,[a[0],nrm(bv(data(v,s,a[0])[1],64)-1)],I)),
     (r'pop_back\(\)$',lambda v,s,a,I:resize(v,s,[a[0],nrm(bv(data(v,s,a[0])[1],64)-1)],I)),
     (r'clear\(\)$',lambda v,s,a,I:put(v,s,a[0],data(v,s,a[0])[0],0)),(r'reserve\(.*\)$',lambda v,s,a,I:None),(r'resize\(unsigned long\)$',resize),
     (r'substr\(unsigned long, unsigned long\) const$',substr),
     (r'compare\(%s const&\) const$'%re.escape(S),cmp_(lambda v,s,a:equal(v,s,*data(v,s,a[0]),*data(v,s,a[1])))),
     (r'compare\(char const\*\) const$',cmp_(lambda v,s,a:equal(v,s,*data(v,s,a[0]),one(v,s,a[1]),clen(v,s,one(v,s,a[1]))))),
     (r'compare\(unsigned long, unsigned long, %s const&\) const$'%re.escape(S),cmp_(lambda v,s,a:equal(v,s,*sub_of(v,s,a[0],a[1],a[2]),*data(v,s,a[3])))),
    ]
    T=[(re.compile(re.escape(S)+'::'+r),f) for r,f in T]
    F=[(r'bool std::operator==<char.*\(%s const&, %s const&\)$'%(re.escape(S),re.escape(S)),lambda v,s,a,I:equal(v,s,*data(v,s,a[0]),*data(v,s,a[1]))),
       (r'bool std::operator!=<char.*\(%s const&, %s const&\)$'%(re.escape(S),re.escape(S)),lambda v,s,a,I:simp(z3.Not(equal(v,s,*data(v,s,a[0]),*data(v,s,a[1]))))),
       (r'bool std::operator==<char.*\(%s const&, char const\*\)$'%re.escape(S),lambda v,s,a,I:equal(v,s,*data(v,s,a[0]),one(v,s,a[1]),clen(v,s,one(v,s,a[1]))))]
    F=[(re.compile(r),f) for r,f in F]
    for nm,d in prog.dem.items():
        for r,f in T+F:
            if r.match(d): vm.contracts[nm]=f; break
    for nm,d in prog.dem.items():
        if re.match(r'std::(allocator|__new_allocator)<char>::|std::__new_allocator<char>',d): vm.contracts.setdefault(nm,lambda v,s,a,I:None)
    vm.assumptions.add('std::string members have their documented meaning (contracts over the characters and the length); texts are shorter than 2^60')
    def ctype(f,desc):
        def h(v,s,a,I):
            v.assumptions.add('%s of the C locale'%desc); x=bv(a[0],32); return nrm(z3.If(f(x),z3.BitVecVal(1,32),z3.BitVecVal(0,32)))
        return h
    for n,f in CT.items(): vm.models[n]=ctype(f,n)
    vm.models['toupper']=lambda v,s,a,I:(lambda x:nrm(z3.If(rng(x,97,122),x-32,x)))(bv(a[0],32))
    vm.models['tolower']=lambda v,s,a,I:(lambda x:nrm(z3.If(rng(x,65,90),x+32,x)))(bv(a[0],32))
    def strtoul(v,s,a,I):
        if a[2]!=16 and a[2]!=10: raise Unsupported('strtoul of this base')
        q=one(v,s,a[0]); e=one(v,s,a[1])
        if e.obj is not None: raise Unsupported('strtoul with an end pointer')
        v.assumptions.add('strtoul is the value of the digits'); val=z3.BitVecVal(0,64); i=0
        if a[2]==16:
            x,y=[v.read(s,q.obj,off_add(q.off,k),1) for k in(0,1)]
            if x==48 and y in(120,88): i=2
        while 1:
            x=v.read(s,q.obj,off_add(q.off,i),1)
            if x is UNDEF: raise Unsupported('strtoul of an unterminated text')
            x=bv(x,8); isd=isxdigit(x) if a[2]==16 else rng(x,48,57)
            if v.must(s,isd):
                val=val*a[2]+z3.ZeroExt(56,unhex(x)); i+=1
                if i>16: raise Unsupported('long number')
                if v.mute and i>4: return z3.BitVec(fname('number'),64)
                continue
            if not v.feasible(s,isd): break
            if v.mute: return z3.BitVec(fname('number'),64)
            raise Unsupported('strtoul of unknown characters')
        return nrm(val)
    vm.models['strtoul']=strtoul; vm.models['strtol']=strtoul; vm.models['strtoull']=strtoul
    vm.models['__isoc23_strtoul']=strtoul; vm.models['__isoc23_strtol']=strtoul
    vm.models['atoi']=lambda v,s,a,I:(lambda r: nrm(z3.Extract(31,0,bv(r,64))))(strtoul(v,s,[a[0],NULL,10],I))
def rng(x,lo,hi): return z3.And(x>=lo,x<=hi) if x.size()==32 else z3.And(z3.UGE(x,lo),z3.ULE(x,hi))
def isxdigit(x): return z3.Or(rng(x,48,57),rng(x,65,70),rng(x,97,102))
def unhex(x): return z3.If(rng(x,48,57),x-48,z3.If(rng(x,65,70),x-55,x-87))
CT={'isspace':lambda x:z3.Or(x==32,rng(x,9,13)),'iscntrl':lambda x:z3.Or(rng(x,0,31),x==127),'isxdigit':isxdigit,'isdigit':lambda x:rng(x,48,57),'isalpha':lambda x:z3.Or(rng(x,65,90),rng(x,97,122)),'isalnum':lambda x:z3.Or(rng(x,65,90),rng(x,97,122),rng(x,48,57)),'isprint':lambda x:rng(x,32,126),'isupper':lambda x:rng(x,65,90),'islower':lambda x:rng(x,97,122),'ispunct':lambda x:z3.Or(rng(x,33,47),rng(x,58,64),rng(x,91,96),rng(x,123,126))}
# ================================================================ C23
SRC='msat/utils/string.cc'; INST='text_inst.cpp'
def find_fn(prog,rx):
    l=[n for n,f in prog.funcs.items() if not f.decl and re.match(rx,prog.dem.get(n,''))]
    if not l: raise Unsupported('no function %s on this tree'%rx)
    return prog.funcs[l[0]]
def hexd(x): return z3.If(z3.ULT(x,10),x+48,x+87)
def among(c,*cs): return z3.Or(*[(z3.And(z3.UGE(c,ord(x[0])),z3.ULE(c,ord(x[1]))) if len(x)==2 else c==ord(x)) for x in cs])
def enc_url(c):
    """(length, bytes) of the encoding of one byte"""
    safe=among(c,'09','AZ','az','-','_','!','*',"'",'(',')'); return z3.If(safe,c64(1),c64(3)),[z3.If(safe,c,z3.BitVecVal(37,8)),hexd(z3.LShR(c,4)),hexd(c&15)]
def enc_cstring(c):
    ctl=z3.Or(z3.ULT(c,32),c==127); nl,tab,q=c==10,c==9,z3.Or(c==34,c==92); v=lambda x:z3.BitVecVal(ord(x),8)
    return z3.If(z3.Or(nl,tab,q),c64(2),z3.If(ctl,c64(4),c64(1))),[z3.If(z3.Or(q,ctl),v('\\'),c),z3.If(nl,v('n'),z3.If(tab,v('t'),z3.If(q,c,v('x')))),hexd(z3.LShR(c,4)),hexd(c&15)]
ENC={'url':enc_url,'cstring':enc_cstring}
def py_url(b): return b''.join(bytes([c]) if chr(c) in '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz-_!*\'()' else b'%%%02x'%c for c in b)
def py_cstring(b): return b''.join({10:b'\\n',9:b'\\t',34:b'\\"',92:b'\\\\'}.get(c,(b'\\x%02x'%c if c<32 or c==127 else bytes([c]))) for c in b)
def py_base64(b):
    import base64; return base64.b64encode(b)
PYENC={'url':py_url,'cstring':py_cstring,'base64':py_base64}
def spec_is_decodable():
    """facts about the specification tables themselves, for all bytes: characters allowed, encodings told apart by their first characters"""
    bad=[]
    for nm in('url','cstring'):
        codes=[PYENC[nm](bytes([c])) for c in range(256)]
        for c,x in enumerate(codes):
            s=z3.simplify(ENC[nm](z3.BitVecVal(c,8))[0]).as_long(); y=bytes(z3.simplify(e).as_long() for e in ENC[nm](z3.BitVecVal(c,8))[1][:s])
            if y!=x: bad.append((nm,c,x,y))
        for a in range(256):
            for b in range(256):
                if a!=b and codes[b].startswith(codes[a]): bad.append((nm,'prefix',a,b))
        ok=set(b'0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz-_!*\'()%') if nm=='url' else set(range(32,256))-{127}
        if any(set(x)-ok for x in codes): bad.append((nm,'characters'))
        if nm=='cstring' and any(x.replace(b'\\\\',b'').replace(b'\\"',b'').count(b'"') for x in codes): bad.append((nm,'quotes'))
    return bad
def unit_tables(U): 
    b=spec_is_decodable(); U.result('each byte\'s code uses allowed characters only and no code starts another (all 256 x 256)',not b,detail=str(b[:4]),solver='enumeration')
def setup(U,extra=()):
    import libc
    prog=U.prog([build.emit_ir(SRC)]); vm=U.vm(prog); install(vm,prog); hexprintf(vm); vm.force_inv=True; vm.use_inv=True; vm.merge_freed=True; vm.merge_mem=False; vm.lazy_read=True
    return prog,vm,State()
def hexprintf(vm):
    import libc
    libc.install(vm); old=vm.models['snprintf']
    def h(vm_,st,a,I,ix=2):
        fmt=models.cstr_bytes(vm_,st,a[ix]); m=re.fullmatch(rb'((?:%%|[^%])*)%02(?:hh)?([xX])((?:%%|[^%])*)',fmt or b'')
        if not m: return NotImplemented if ix else old(vm_,st,a,I)
        v=bv(a[ix+1],32)
        if b'hh' in fmt: v=v&255
        vm_.assumptions.add('snprintf("%02x") writes two hexadecimal digits')
        if not vm_.must(st,z3.ULT(v,256)): raise Unsupported('more than two hexadecimal digits')
        v=z3.Extract(7,0,v); up=m.group(2)==b'X'; d=lambda x:nrm(z3.If(z3.ULT(x,10),x+48,x+(55 if up else 87)))
        out=list(m.group(1).replace(b'%%',b'%'))+[d(z3.LShR(v,4)),d(v&15)]+list(m.group(3).replace(b'%%',b'%'))+[0]
        if ix==2:
            if not isint(a[1]): raise Unsupported('snprintf with a symbolic size')
            out=out[:max(a[1]-1,0)]+[0] if a[1]<len(out) else out
        q=models.ptr_conc(vm_,st,a[0]); vm_.chk(st,True,q,len(out),'formatted output')
        for k,b in enumerate(out): vm_.write(st,q.obj,off_add(q.off,k),1,b)
        return len(out)-1
    vm.models['snprintf']=lambda v,s,a,I:(lambda r: old(v,s,a,I) if r is NotImplemented else r)(h(v,s,a,I,2))
    o2=vm.models['sprintf']; vm.models['sprintf']=lambda v,s,a,I:(lambda r: o2(v,s,a,I) if r is NotImplemented else r)(h(v,s,a,I,1))
def names(t):
    out=set(); seen=set(); todo=[t]
    while todo:
        x=todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x): out.add(x.decl().name()); todo+=x.children()
    return out
def val(v): return v.off if isinstance(v,Ptr) else v
def carried64(X): return [v for v in X.values() if isinstance(v.x,Ptr) and v.x.obj is not None or isinstance(v.x,z3.BitVecRef) and v.x.size() in(32,64)]
def w64(x):
    x=bv(val(x),64) if not isinstance(x,z3.BitVecRef) or x.size()==64 else z3.ZeroExt(64-x.size(),x); return x
def model_case(U,name,A,n,*extra):
    def f(ev,ob):
        k=min(ev(n).as_long(),12); return ('text',name,bytes(ev(z3.Select(A,c64(i))).as_long() for i in range(k)),[bytes([ev(z3.Select(A,e)).as_long()]) for e in extra])
    U.on_model=f
def unit_encode(nm):
    def f(U):
        prog,vm,st=setup(U); src,S,n=text(vm,st,'s',maxlen=1<<58); E=ENC[nm]; P=z3.Function('P',B64,B64); k0=z3.BitVec('k0',64); l0,e0=E(z3.Select(S,k0)); model_case(U,'encode_'+nm,S,n,k0)
        st.assume(P(c64(0))==0); st.assume(z3.ULT(k0,n)); st.assume(P(k0+1)==P(k0)+l0); st.assume(z3.ULE(P(k0),4*k0)); ret=vm.new(st,'result',32,'heap')
        def lemma(v): 
            # P(v): length of the encoding of the first v bytes: defined by recursion, hence monotone
            return z3.Implies(z3.ULE(v,n),z3.And(P(v+1)==P(v)+E(z3.Select(S,v))[0],z3.ULE(P(v),4*v),z3.Implies(z3.ULT(v,k0),z3.ULE(P(v+1),P(k0))),z3.Implies(z3.ULT(k0,v),z3.ULE(P(k0+1),P(v)))))
        st.assume(lemma(n)); vm.heavy=lambda t: 'P' in names(t)
        key=('m',ret.id,8)
        def content(s,L):
            d,_=data(vm,s,Ptr(ret,0)); return [z3.Implies(z3.And(z3.ULE(P(k0)+l0,L),z3.ULT(c64(j),l0)),bv(vm.read(s,d.obj,nrm(bv(d.off,64)+P(k0)+j),1),8)==e) for j,e in enumerate(e0)]
        def inv(fr,h,X,s):
            for v in carried64(X): s.assume(lemma(w64(v.x)))
            return [('character %d of what was encoded so far'%j,lambda vals,s2,j=j: content(s2,w64(vals[key]))[j]) for j in range(len(e0))] if key in X else []
        def cands(v,fr,h,X,ints,add):
            for t in ints:
                add('position in the text',lambda X,g,k=t.key: z3.ULE(w64(g(k)),n))
                if key in X and t.key!=key: add('length of the encoding',lambda X,g,k=t.key: w64(g(key))==P(w64(g(k))))
        vm.unit_inv=inv; vm.more_cands=cands
        args=[Ptr(ret,0),src]
        for o in U.rets(vm,vm.call_fn(find_fn(prog,r'msat::str::encode_%s(\[abi:cxx11\])?\(%s const&\)'%(nm,re.escape(STR))),args,st),what='encode_'+nm):
            d,L=data(vm,o.st,Ptr(ret,0)); vm.oblige(o.st,bv(L,64)==P(n),'the encoding is as long as the codes of the bytes'); [vm.oblige(o.st,x,'each byte is replaced by its code, in its place (character %d)'%j) for j,x in enumerate(content(o.st,bv(L,64)))]
    return f
def unit_decode(nm,tail):
    """tail: '' the text ends after the encoding; otherwise the character that follows"""
    def f(U):
        prog,vm,st=setup(U); E=ENC[nm]; S=z3.Array('s',B64,B8); n=z3.BitVec('n',64); P=z3.Function('P',B64,B64); st.assume(z3.ULE(n,1<<58)); st.assume(P(c64(0))==0); T=z3.Array('t',B64,B8); q=z3.BitVec('q',64)
        more=z3.BitVec('more',64); size=nrm(P(n)+more) if tail else P(n); st.assume(z3.ULE(P(n),4*n))
        if tail: st.assume(z3.And(z3.UGE(more,1),z3.ULE(more,1<<40))); st.assume(z3.Select(T,P(n))==ord(tail))
        st.assume(z3.Select(T,size)==0); st.assume(z3.ULT(q,n))
        def f2(ev,ob):
            k=min(ev(n).as_long(),12); return ('text','decode_'+nm,bytes(ev(z3.Select(S,c64(i))).as_long() for i in range(k)),[bytes([ev(z3.Select(S,q)).as_long()])])
        U.on_model=f2
        d=vm.new(st,'t',nrm(size+1),'heap',T,const=True); src=vm.new(st,'t string',32,'heap'); vm.write(st,src,0,8,Ptr(d,0)); vm.write(st,src,8,8,size); ret=vm.new(st,'result',32,'heap'); key=('m',ret.id,8); lp=vm.new(st,'lenParsed',8,'heap',z3.Array('lp',B64,B8),const=False)
        def lemma(k):
            l,e=E(z3.Select(S,k)); return z3.Implies(z3.ULE(k,n),z3.And(P(k+1)==P(k)+l,z3.ULE(P(k),4*k),z3.ULT(k,n)==z3.ULT(P(k),P(n)),z3.Implies(z3.ULT(k,n),z3.And(z3.ULE(P(k+1),P(n)),*[z3.Implies(z3.ULT(c64(j),l),z3.Select(T,P(k)+j)==x) for j,x in enumerate(e)]))))
        def inv(fr,h,X,s):
            if key not in X: return []
            s.assume(lemma(w64(X[key].x)))
            return [('what was decoded so far',lambda vals,s2: z3.Implies(z3.ULT(q,w64(vals[key])),bv(vm.read(s2,data(vm,s2,Ptr(ret,0))[0].obj,q,1),8)==z3.Select(S,q)))]
        def cands(v,fr,h,X,ints,add):
            if key not in X: return
            add('bytes decoded',lambda X,g: z3.ULE(w64(g(key)),n))
            for t in ints:
                if t.key!=key: add('position in the encoding',lambda X,g,k=t.key: w64(g(k))==P(w64(g(key))))
        vm.unit_inv=inv; vm.more_cands=cands
        for o in U.rets(vm,vm.call_fn(find_fn(prog,r'msat::str::decode_%s(\[abi:cxx11\])?\('%nm),[Ptr(ret,0),Ptr(src,0)]+([Ptr(lp,0)] if nm=='cstring' else []),st),what='decode_'+nm):
            d2,L=data(vm,o.st,Ptr(ret,0)); vm.oblige(o.st,bv(L,64)==n,'as many bytes are decoded as were encoded'); vm.oblige(o.st,bv(vm.read(o.st,d2.obj,nrm(bv(d2.off,64)+q),1),8)==z3.Select(S,q),'each byte decoded is the original one')
            if nm=='cstring': vm.oblige(o.st,bv(vm.read(o.st,lp,0,8),64)==P(n)+(1 if tail else 0),'the length parsed is the encoding'+(' and the closing quote' if tail else ''))
    return f
def b64c(x): return z3.If(z3.ULT(x,26),x+65,z3.If(z3.ULT(x,52),x+71,z3.If(z3.ULT(x,62),x-4,z3.If(x==62,z3.BitVecVal(43,8),z3.BitVecVal(47,8)))))
def b64group(S,p,have):
    """the four characters for the bytes at p.. (have: how many are there), before padding"""
    b=[z3.If(z3.UGT(have,c64(i)),z3.Select(S,p+i),z3.BitVecVal(0,8)) for i in range(3)]; x=z3.Concat(*b); return [b64c(z3.ZeroExt(2,z3.Extract(23-6*j,18-6*j,x))) for j in range(4)]
def unit_b64_encode(r):
    def f(U):
        prog,vm,st=setup(U); S=z3.Array('s',B64,B8); m=z3.BitVec('m',64); st.assume(z3.ULE(m,1<<40)); n=nrm(3*m+r); st.assume(z3.Select(S,n)==0)
        d=vm.new(st,'s',nrm(n+1),'heap',S,const=True); src=vm.new(st,'s string',32,'heap'); vm.write(st,src,0,8,Ptr(d,0)); vm.write(st,src,8,8,n); ret=vm.new(st,'result',32,'heap'); key=('m',ret.id,8); G=m+(1 if r else 0); g0=z3.BitVec('g0',64); st.assume(z3.ULT(g0,G)); model_case(U,'encode_base64',S,n,3*g0)
        e0=b64group(S,3*g0,n-3*g0)
        rd=lambda s,k:(lambda q:bv(vm.read(s,q.obj,nrm(bv(q.off,64)+k),1),8))(data(vm,s,Ptr(ret,0))[0])
        def inv(fr,h,X,s):
            if key not in X or not fr.f.name in main: return []
            return [('what was encoded so far',lambda vals,s2: z3.Implies(z3.ULT(4*g0,w64(vals[key])),z3.And(*[rd(s2,4*g0+j)==e for j,e in enumerate(e0)])))]
        def cands(v,fr,h,X,ints,add):
            if key not in X: return
            add('whole groups',lambda X,g: (w64(g(key))&3)==0)
            for t in ints:
                if t.key!=key:
                    add('three bytes to four characters',lambda X,g,k=t.key: w64(g(k))==3*z3.LShR(w64(g(key)),2))
                    add('position in the text',lambda X,g,k=t.key: z3.ULE(w64(g(k)),3*G))
        main={n for n,dd in prog.dem.items() if 'encode_base64' in dd}
        vm.unit_inv=inv; vm.more_cands=cands
        for o in U.rets(vm,vm.call_fn(find_fn(prog,r'msat::str::encode_base64(\[abi:cxx11\])?\(%s const&\)'%re.escape(STR)),[Ptr(ret,0),Ptr(src,0)],st),what='encode_base64'):
            L=bv(data(vm,o.st,Ptr(ret,0))[1],64); vm.oblige(o.st,L==4*G,'four characters for every three bytes or rest')
            for j,e in enumerate(e0): vm.oblige(o.st,rd(o.st,4*g0+j)==(z3.If(g0==m,z3.BitVecVal(61,8),e) if r and j>r else e),'character %d of each group of the encoding'%j)
    return f
def unit_b64_decode(r):
    def f(U):
        prog,vm,st=setup(U); S=z3.Array('s',B64,B8); m=z3.BitVec('m',64); st.assume(z3.ULE(m,1<<40)); n=nrm(3*m+r); G=m+(1 if r else 0); size=nrm(4*G); T=z3.Array('t',B64,B8); q=z3.BitVec('q',64); st.assume(z3.ULT(q,n)); st.assume(z3.Select(T,size)==0)
        d=vm.new(st,'t',nrm(size+1),'heap',T,const=True); src=vm.new(st,'t string',32,'heap'); vm.write(st,src,0,8,Ptr(d,0)); vm.write(st,src,8,8,size); ret=vm.new(st,'result',32,'heap'); key=('m',ret.id,8)
        def f2(ev,ob):
            k=min(ev(n).as_long(),12); return ('text','decode_base64',bytes(ev(z3.Select(S,c64(i))).as_long() for i in range(k)),[])
        U.on_model=f2
        def code(g):
            e=b64group(S,3*g,n-3*g); return z3.Implies(z3.ULT(g,G),z3.And(*[z3.Select(T,4*g+j)==(z3.If(g==m,z3.BitVecVal(61,8),x) if r and j>r else x) for j,x in enumerate(e)]))
        st.assume(code(nrm(G-1)))
        rd=lambda s,k:(lambda p:bv(vm.read(s,p.obj,nrm(bv(p.off,64)+k),1),8))(data(vm,s,Ptr(ret,0))[0])
        def inv(fr,h,X,s):
            if key not in X: return []
            for v in carried64(X): s.assume(code(z3.LShR(w64(v.x),2)))
            return [('what was decoded so far',lambda vals,s2: z3.Implies(z3.ULT(q,w64(vals[key])),rd(s2,q)==z3.Select(S,q)))]
        def cands(v,fr,h,X,ints,add):
            if key not in X: return
            add('at most the bytes encoded and the padding',lambda X,g: z3.ULE(w64(g(key)),3*G))
            for t in ints:
                if t.key!=key:
                    add('four characters to three bytes',lambda X,g,k=t.key: z3.And((w64(g(k))&3)==0,w64(g(key))==3*z3.LShR(w64(g(k)),2)))
                    add('position in the encoding',lambda X,g,k=t.key: z3.ULE(w64(g(k)),size))
        vm.unit_inv=inv; vm.more_cands=cands; vm.sym_unroll=0
        for o in U.rets(vm,vm.call_fn(find_fn(prog,r'msat::str::decode_base64(\[abi:cxx11\])?\('),[Ptr(ret,0),Ptr(src,0)],st),what='decode_base64'):
            vm.oblige(o.st,bv(data(vm,o.st,Ptr(ret,0))[1],64)==n,'as many bytes are decoded as were encoded'); vm.oblige(o.st,rd(o.st,q)==z3.Select(S,q),'each byte decoded is the original one')
    return f
def unit_safe(nm):
    """any text at all: nothing is read outside it, and decoding it ends"""
    def f(U):
        prog,vm,st=setup(U); vm.small_unroll=3; src,T,n=text(vm,st,'t'); ret=vm.new(st,'result',32,'heap'); lp=vm.new(st,'lenParsed',8,'heap',z3.Array('lp',B64,B8),const=False)
        def f2(ev,ob):
            k=min(ev(n).as_long(),12); return ('any','decode_'+nm,bytes(ev(z3.Select(T,c64(i))).as_long() for i in range(k)))
        U.on_model=f2
        def stl(v,s,a,I): return z3.BitVec(fname('number'),64) # any number
        for x in('strtoul','strtol','__isoc23_strtoul','__isoc23_strtol','atoi'): vm.models[x]=stl if x!='atoi' else (lambda v,s,a,I: z3.BitVec(fname('number'),32))
        def cands(v,fr,h,X,ints,add):
            for t in ints: add('within the text',lambda X,g,k=t.key: z3.ULE(w64(g(k)),n)); add('before the end of the text',lambda X,g,k=t.key: z3.ULT(w64(g(k)),n))
        vm.more_cands=cands
        for o in U.rets(vm,vm.call_fn(find_fn(prog,r'msat::str::decode_%s(\[abi:cxx11\])?\('%nm),[Ptr(ret,0),src]+([Ptr(lp,0)] if nm=='cstring' else []),st),what='decode_'+nm):
            if nm=='cstring': vm.oblige(o.st,z3.ULE(bv(vm.read(o.st,lp,0,8),64),n),'the length parsed is not beyond the text')
    return f
def isspace8(x): return z3.Or(x==32,z3.And(z3.UGE(x,9),z3.ULE(x,13)))
def unit_trim(nm):
    def f(U):
        prog,vm,st=setup(U); src,T,n=text(vm,st,'t'); q=z3.BitVec('q',64); ret=vm.new(st,'result',32,'heap'); b,e=z3.BitVec('b',64),z3.BitVec('e',64); sp=lambda k:isspace8(z3.Select(T,k)); model_case(U,nm,T,n,q)
        # [b,e) is what remains: defined by the text
        st.assume(z3.And(z3.ULE(b,e),z3.ULE(e,n)))
        if nm=='rstrip': st.assume(b==0)
        else: st.assume(z3.Implies(z3.ULT(b,n),z3.Not(sp(b))))
        if nm=='lstrip': st.assume(e==n)
        else: st.assume(z3.Implies(z3.ULT(b,e),z3.Not(sp(e-1))))
        def lemma(v): return z3.And(z3.Implies(z3.ULT(v,b),sp(v)),z3.Implies(z3.And(z3.ULT(e,v),z3.ULE(v,n)),sp(v-1)),z3.Implies(z3.And(z3.ULE(e,v),z3.ULT(v,n)),sp(v)))
        st.assume(lemma(c64(0))); st.assume(lemma(n)); st.assume(lemma(b)); st.assume(lemma(e))
        def inv(fr,h,X,s):
            for v in carried64(X): s.assume(lemma(w64(v.x)))
            return []
        def cands(v,fr,h,X,ints,add):
            for t in ints:
                add('not beyond the first character kept',lambda X,g,k=t.key: z3.ULE(w64(g(k)),b)); add('not before the last character kept',lambda X,g,k=t.key: z3.UGE(w64(g(k)),e)); add('within the text',lambda X,g,k=t.key: z3.ULE(w64(g(k)),n))
        vm.unit_inv=inv; vm.more_cands=cands
        for o in U.rets(vm,vm.call_fn(find_fn(prog,r'msat::str::%s(\[abi:cxx11\])?\(%s const&\)$'%(nm,re.escape(STR))),[Ptr(ret,0),src],st),what=nm):
            d,L=data(vm,o.st,Ptr(ret,0)); vm.oblige(o.st,bv(L,64)==e-b,'what remains is the text without the spaces'); s=o.st.fork(); s.assume(z3.ULT(q,e-b)); vm.oblige(s,bv(vm.read(s,d.obj,nrm(bv(d.off,64)+q),1),8)==z3.Select(T,b+q),'the characters that remain are unchanged')
    return f
def unit_affix(nm):
    def f(U):
        import os
        prog=U.prog([build.emit_ir(os.path.join(build.VERIF,'harness',INST))]); vm=U.vm(prog); install(vm,prog); vm.force_inv=True; vm.use_inv=True; st=State(); src,T,n=text(vm,st,'t'); par,Q,k=text(vm,st,'part'); q=z3.BitVec('q',64); off=nrm(n-k) if nm=='endswith' else 0
        vm.positions=[q]
        def f2(ev,ob):
            g=lambda A,l: bytes(ev(z3.Select(A,c64(i))).as_long() for i in range(min(l,40))); return ('affix',nm,g(T,ev(n).as_long()),g(Q,ev(k).as_long()))
        U.on_model=f2
        for o in U.rets(vm,vm.call_fn(find_fn(prog,r'msat::str::%s\('%nm),[src,par],st),what=nm):
            r=zbool(o.val) if isinstance(o.val,(bool,z3.BoolRef)) else bv(o.val,8)!=0
            s=o.st.fork(); s.assume(r); vm.oblige(s,z3.And(z3.ULE(k,n),z3.Implies(z3.ULT(q,k),z3.Select(T,bv(off,64)+q)==z3.Select(Q,q))),'true only when every character of the part agrees')
            s=o.st.fork(); s.assume(z3.Not(r)); vm.oblige(s,z3.Or(z3.UGT(k,n),*[z3.And(z3.ULT(w,k),z3.Select(T,bv(off,64)+w)!=z3.Select(Q,w)) for w in vm.__dict__.get('witness',[])]),'false only when a character differs or the text is shorter')
    return f
