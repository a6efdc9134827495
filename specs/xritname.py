"""C13: names of xRIT files (msat/xrit/fileaccess)"""
import re, z3, build, layout
from sym import *
from exec import DeadPath
import models, strspec as T
from strspec import c64,nrm,data,put,append,one,B8,B64,STR
SRC='msat/xrit/fileaccess.cpp'; CLS='msat::xrit::FileAccess'; MEM=('directory','resolution','productid1','productid2','timing'); NPOS=(1<<64)-1; LIM=1<<48
_l=[]
def lay():
    if not _l: _l.append(layout.dump('#include <msat/xrit/fileaccess.h>\nstatic int z_=sizeof(msat::xrit::FileAccess);'))
    return _l[0]
def off(m):
    for l in lay()[CLS][1]:
        if m in l[6].split('.'): return l[1]
    raise Unsupported('%s has no member %s on this tree'%(CLS,m))
def at_(vm,st,d,k): return bv(vm.read(st,d.obj,nrm(bv(d.off,64)+k),1),8)
def same(a,b): x=z3.simplify(bv(a,64)-bv(b,64)); return z3.is_bv_value(x) and x.as_long()==0
def sure(vm,st,c):
    """c follows from the order of the parts of the name, or from all that is known"""
    f=vm.__dict__.get('order')
    if f:
        s=z3.Solver(); s.set('timeout',3000); s.add(*f); s.add(z3.Not(c))
        if s.check()==z3.unsat: return True
    return vm.must(st,c)
def find_(back,neg=False):
    def c(vm,st,a,I):
        d,n=data(vm,st,a[0]); ch=a[1]
        if not isint(ch): ch=bv(ch,8)
        n=bv(n,64); p=bv(a[2],64); r=z3.BitVec(fname('found'),64); k=z3.Bool(fname('isfound')); hit=(lambda x: x!=ch) if neg else (lambda x: x==ch)
        for obj,beg,kc,P,last in vm.known:
            # the occurrences of this character from beg on are known
            if obj is not d.obj or d.off!=0 or kc!=ch or neg: continue
            if back:
                if isint(a[2]) and a[2]==NPOS and last is not None: return last
                continue
            if same(p,beg) and P: return P[0]
            hit_=[i for i,x in enumerate(P) if same(p,x+1)]
            if hit_:
                if hit_[0]+1<len(P): return P[hit_[0]+1]
                if last is not None: return NPOS
                continue
            if not sure(vm,st,z3.UGE(p,beg)): continue
            for i,x in enumerate(P):
                if sure(vm,st,z3.UGE(x,p)): return x
                if not sure(vm,st,z3.ULT(x,p)): break
            else:
                if last is not None: return NPOS
        rd=lambda q: at_(vm,st,d,q); inside=z3.And(z3.ULT(r,n),z3.ULE(r,p) if back else z3.UGE(r,p)); between=lambda q: z3.And(z3.ULT(q,n),z3.And(z3.UGT(q,r),z3.ULE(q,p)) if back else z3.And(z3.UGE(q,p),z3.ULT(q,r))); all_=lambda q: z3.And(z3.ULT(q,n),z3.ULE(q,p) if back else z3.UGE(q,p))
        s=st.fork(); out=[]; s.assume(inside); s.assume(hit(rd(r)))
        for l in vm.lemmas: s.assume(l(r,d))
        for q in vm.positions: s.assume(z3.Implies(between(q),z3.Not(hit(rd(q)))))
        if vm.feasible_pc(s): out.append(Outcome('ret',s,r))
        s=st.fork()
        for q in vm.positions: s.assume(z3.Implies(all_(q),z3.Not(hit(rd(q)))))
        if vm.feasible_pc(s): out.append(Outcome('ret',s,NPOS))
        return out
    return c
def isint(x): return isinstance(x,int)
def eq_lit(vm,st,p,lit):
    d,n=data(vm,st,p); L=models.cstr_bytes(vm,st,one(vm,st,lit))
    if L is None: raise Unsupported('comparison with an unknown text')
    if isint(n) and n!=len(L): return z3.BoolVal(False)
    return z3.simplify(z3.And(bv(n,64)==len(L),*[at_(vm,st,d,c64(i))==c for i,c in enumerate(L)]))
def resize(vm,st,a,I):
    d,m=data(vm,st,a[0]); n=a[1]; ch=T.byte(a[2]) if len(a)>2 else 0
    if vm.must(st,z3.ULE(bv(n,64),bv(m,64))): put(vm,st,a[0],d,n); return None
    if not isint(n) or n>64:
        more=nrm(bv(n,64)-bv(m,64))
        if not vm.must(st,z3.ULE(bv(m,64),bv(n,64))): raise Unsupported('resize to an unknown length')
        T.fill(vm,st,a[0],more,ch); return None
    for i in range(n):
        if isint(m) and i<m: continue
        old=vm.read(st,d.obj,off_add(d.off,i),1); v=ch if old is UNDEF or isint(m) else z3.If(z3.ULT(c64(i),bv(m,64)),bv(old,8),bv(ch,8)); vm.write(st,d.obj,off_add(d.off,i),1,v)
    put(vm,st,a[0],d,n)
def setup(U):
    prog=U.prog([build.emit_ir(SRC)]); vm=U.vm(prog); T.install(vm,prog); vm.force_inv=True; vm.use_inv=True; vm.merge_freed=True; vm.merge_mem=False; vm.lazy_read=True; vm.positions=[]; vm.lemmas=[]; vm.known=[]; concat(vm,prog)
    S=re.escape(STR); add=[(r'%s::find\(char, unsigned long\) const$'%S,find_(False)),(r'%s::rfind\(char, unsigned long\) const$'%S,find_(True)),(r'%s::find_first_of\(char, unsigned long\) const$'%S,find_(False)),(r'%s::find_last_of\(char, unsigned long\) const$'%S,find_(True)),(r'%s::find_last_not_of\(char, unsigned long\) const$'%S,find_(True,True)),(r'%s::find_first_not_of\(char, unsigned long\) const$'%S,find_(False,True)),
      (r'%s::resize\(unsigned long(, char)?\)$'%S,mutate(resize)),(r'%s::basic_string\(%s const&\)$'%(S,S),lambda v,s,a,I: share(v,s,a[0],a[1]) and None),(r'%s::(operator=|assign)\(%s const&\)$'%(S,S),lambda v,s,a,I: share(v,s,a[0],a[1])),(r'%s::c_str\(\) const$|%s::data\(\) const$'%(S,S),chars),(r'%s::substr\('%S,substr),(r'%s::basic_string\(%s const&, unsigned long(, unsigned long)?\)$'%(S,S),substr),
      (r'bool std::operator==<char.*\(%s const&, char const\*\)$'%S,lambda v,s,a,I: eq_lit(v,s,a[0],a[1])),(r'bool std::operator!=<char.*\(%s const&, char const\*\)$'%S,lambda v,s,a,I: z3.simplify(z3.Not(eq_lit(v,s,a[0],a[1])))),
      (r'%s::compare\(char const\*\) const$'%S,T.cmp_(lambda v,s,a: eq_lit(v,s,a[0],a[1]))),
      (r'%s::compare\(unsigned long, unsigned long, char const\*\) const$'%S,cmp3)]
    for nm,d in prog.dem.items():
        d=d.replace('[abi:cxx11]','')
        for r,f in add:
            if re.match(r,d): vm.contracts[nm]=f; break
        if re.match(r'%s::(operator\+=|append|push_back|pop_back|clear|erase|insert|begin|end|operator\[\]\(unsigned long\)$|data\(\)$|front\(\)$|back\(\)$)'%S,d) and nm in vm.contracts: vm.contracts[nm]=mutate(vm.contracts[nm])
    if trim(prog): vm.contracts[trim(prog)]=trimmed
    return prog,vm
def cmp3(vm,st,a,I):
    d,n=data(vm,st,a[0]); t=T.new_string(vm,st); out=[]
    for o in T.substr(vm,st,[t,a[0],a[1],a[2]],None):
        if o.kind!='ret': out.append(o); continue
        e=eq_lit(vm,o.st,t,a[3]); x=z3.BitVec(fname('order'),32); o.st.assume((x==0)==e); out.append(Outcome('ret',o.st,x))
    return out
def concat(vm,prog,build_=None):
    """operator+ of texts: the concatenation"""
    S=re.escape(STR); A={'%s const&'%STR:'s','%s&&'%STR:'s','char const*':'c','char':'k'}
    for nm,d in prog.dem.items():
        m=re.match(r'%s std::operator\+<char.*?>\((.*)\)$'%S,d.replace('[abi:cxx11]',''))
        if not m: continue
        k=re.split(r', (?=std::__cxx11|char)',m.group(1)); k=[A.get(x) for x in re.findall(r'%s const&|%s&&|char const\*|char$'%(S,S),re.sub(r', char\)?$',', char',m.group(1)))]
        if len(k)!=2 or None in k: continue
        def h(v,s,a,I,k=k):
            if build_: return build_(v,s,a,k)
            put(v,s,a[0],T.fresh_text(v,s),0)
            for t,x in zip(k,a[1:]):
                if t=='s': T.copy_from(v,s,a[0],x)
                elif t=='k': T.push(v,s,a[0],x)
                else: q=one(v,s,x); append(v,s,a[0],q,T.clen(v,s,q))
        vm.contracts[nm]=h
def own(vm,st,p):
    """texts that are never written share their characters; before writing, a text gets its own"""
    d,n=data(vm,st,p)
    if d.obj.const: put(vm,st,p,T.fresh_text(vm,st),0); append(vm,st,p,d,n)
def mutate(f):
    def h(v,s,a,I): own(v,s,a[0]); return f(v,s,a,I)
    return h
def share(vm,st,dst,src):
    d,n=data(vm,st,src)
    if d.obj.const: put(vm,st,dst,d,n)
    elif one(vm,st,dst)!=one(vm,st,src): put(vm,st,dst,T.fresh_text(vm,st),0); append(vm,st,dst,d,n)
    return dst
def chars(vm,st,a,I):
    d,n=data(vm,st,a[0]); R=vm.__dict__.get('rope',{})
    if d.obj.id in R and d.off==0 and same(n,R[d.obj.id][1]): return d
    if d.obj.const and not vm.must(st,at_(vm,st,d,bv(n,64))==0): own(vm,st,a[0])
    return T.terminate(vm,st,a[0])[0]
def substr(vm,st,a,I):
    d,n=data(vm,st,a[1])
    if not d.obj.const: return T.substr(vm,st,a,I)
    P,M,L=bv(a[2],64),bv(n,64),bv(a[3] if len(a)>3 else NPOS,64); out=[]; good=z3.ULE(P,M)
    if not sure(vm,st,good):
        s2=st.fork(); s2.assume(z3.Not(good)); out.append(T.throw(vm,s2,T.OOR))
        if not vm.feasible(st,good): return out
        st=st.fork(); st.assume(good)
    left=M-P; L=L if sure(vm,st,z3.ULE(L,left)) else left if sure(vm,st,z3.ULE(left,L)) else z3.If(z3.ULE(L,left),L,left)
    put(vm,st,a[0],Ptr(d.obj,nrm(bv(d.off,64)+P)),L); return out+[Outcome('ret',st,a[0] if I is not None and I.ty.k=='ptr' else None)]
def trimmed(vm,st,a,I):
    """contract of deunderscore: the text without the underscores at its end; a text of underscores only keeps one"""
    d,n=data(vm,st,a[1]); N=bv(n,64)
    for obj,b,w,e in vm.__dict__.get('ends',[]):
        if obj is d.obj and same(d.off,b) and same(N,e-b): put(vm,st,a[0],d,nrm(w-b)); return None
    if not d.obj.const: raise Unsupported('unknown text')
    e=z3.BitVec(fname('trimmed'),64); st.assume(z3.And(z3.ULE(e,N),z3.Implies(N!=0,e!=0),z3.Or(z3.ULE(e,1),at_(vm,st,d,e-1)!=95))); put(vm,st,a[0],d,e)
# texts put together: their parts ------------------------------------------------------------------------------------
def parts(vm,st,p):
    d,n=data(vm,st,p); R=vm.rope
    if isint(n) and n==0: return []
    if d.obj.id in R and d.off==0 and same(n,R[d.obj.id][1]): return list(R[d.obj.id][0])
    if isint(n) and n<=256:
        b=[vm.read(st,d.obj,off_add(d.off,i),1) for i in range(n)]
        if all(isint(x) for x in b): return [('text',bytes(x&255 for x in b))]
    if not d.obj.const: raise Unsupported('text that changes')
    return [('part',d,n)]
def length(l): 
    n=c64(0)
    for x in l: n=n+(len(x[1]) if x[0]=='text' else bv(x[2],64))
    return nrm(n)
def rope(vm,st,p,l):
    m=[]
    for x in l:
        if x[0]=='fill' and isint(nrm(x[2])) and nrm(x[2])<=256: x=('text',bytes([x[1]])*nrm(x[2]))
        if x[0]=='text' and not x[1]: continue
        if x[0]=='text' and m and m[-1][0]=='text': m[-1]=('text',m[-1][1]+x[1])
        else: m.append(x)
    n=length(m)
    def content(c,s,at,k):
        if k!=1: raise Unsupported('several characters at once')
        at=bv(at,64); pos=c64(0); v=z3.BitVecVal(0,8); todo=[]
        for x in m: 
            L=c64(len(x[1])) if x[0]=='text' else bv(x[2],64); todo.append((pos,pos+L,x)); pos=pos+L
        for a,b,x in reversed(todo):
            if x[0]=='text':
                for i,ch in enumerate(x[1]): v=z3.If(at==a+i,z3.BitVecVal(ch,8),v)
            else: v=z3.If(z3.And(z3.UGE(at,a),z3.ULT(at,b)),at_(vm,s,x[1],at-a) if x[0]=='part' else z3.BitVecVal(x[1],8),v)
        return nrm(v)
    o=vm.new(st,'text',nrm(bv(n,64)+1),'heap',content,const=True); vm.rope[o.id]=(m,n); put(vm,st,p,Ptr(o,0),n); return p
def lit(vm,st,q):
    b=models.cstr_bytes(vm,st,one(vm,st,q))
    if b is None: raise Unsupported('unknown text')
    return [('text',bytes(b))]
def ropes(vm,prog):
    S=re.escape(STR); vm.rope={}
    def app(get): return lambda v,s,a,I: rope(v,s,a[0],parts(v,s,a[0])+get(v,s,a))
    def new(get):
        def h(v,s,a,I): put(v,s,a[0],T.fresh_text(v,s),0); rope(v,s,a[0],get(v,s,a))
        return h
    def asg(get): return lambda v,s,a,I: rope(v,s,a[0],get(v,s,a))
    ch=lambda x: [('text',bytes([T.byte(x)]))] if isint(x) else unsup()
    def unsup(): raise Unsupported('unknown character')
    fill=lambda n,c: ([('text',bytes([T.byte(c)])*n)] if isint(n) else [('fill',T.byte(c),n)]) if isint(c) else unsup()
    def res(v,s,a,I):
        d,m=data(v,s,a[0]); n=a[1]; l=parts(v,s,a[0]); M,N=bv(m,64),bv(n,64); c=a[2] if len(a)>2 else 0
        if v.must(s,z3.UGE(N,M)): rope(v,s,a[0],l+fill(nrm(N-M),c)); return None
        if v.must(s,z3.ULE(N,M)):
            if not d.obj.const: raise Unsupported('text that changes')
            put(v,s,a[0],d,n); return None
        o=[]
        for cnd in(z3.UGE(N,M),z3.ULT(N,M)):
            s2=s.fork(); s2.assume(cnd); res(v,s2,a,I); o.append(Outcome('ret',s2,None))
        return o
    add=[(r'basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)$',new(lambda v,s,a: lit(v,s,a[1]))),(r'basic_string(<.*>)?\(unsigned long, char, std::allocator<char> const&\)$',new(lambda v,s,a: fill(a[1],a[2]))),(r'append\(unsigned long, char\)$',app(lambda v,s,a: fill(a[1],a[2]))),
      (r'(operator\+=|append)\(char const\*\)$',app(lambda v,s,a: lit(v,s,a[1]))),(r'(operator\+=|append)\(%s const&\)$'%S,app(lambda v,s,a: parts(v,s,a[1]))),(r'operator\+=\(char\)$',app(lambda v,s,a: ch(a[1]))),(r'push_back\(char\)$',lambda v,s,a,I: app(lambda v,s,a: ch(a[1]))(v,s,a,I) and None),
      (r'(operator=|assign)\(char const\*\)$',asg(lambda v,s,a: lit(v,s,a[1]))),(r'resize\(unsigned long(, char)?\)$',res)]
    for nm,d in prog.dem.items():
        d=d.replace('[abi:cxx11]','')
        for r,f in add:
            if re.match(S+'::'+r,d): vm.contracts[nm]=f; break
    if pad(prog): vm.contracts[pad(prog)]=padded
    A={'%s const&'%STR:'s','%s&&'%STR:'s','char const*':'c','char':'k'}; concat(vm,prog,lambda v,s,a,k: (put(v,s,a[0],T.fresh_text(v,s),0),rope(v,s,a[0],sum([parts(v,s,x) if t=='s' else lit(v,s,x) if t=='c' else ch(x) for t,x in zip(k,a[1:])],[])))and None)
def unit_trim(U):
    """the body of deunderscore: for every text"""
    prog,vm=setup(U); nm=trim(prog)
    if not nm: U.notes.append('no function deunderscore'); return
    del vm.contracts[nm]; st=State(); src,A,n=T.text(vm,st,'t',maxlen=LIM); e,q=z3.BitVec('e',64),z3.BitVec('q',64); ret=vm.new(st,'result',32,'heap'); ch=lambda k: z3.Select(A,k)
    st.assume(z3.ULE(e,n)); st.assume(z3.Implies(n!=0,e!=0)); st.assume(z3.Or(z3.ULE(e,1),ch(e-1)!=95)); lemma=lambda v: z3.Implies(z3.And(z3.ULE(e,v),z3.ULT(v,n)),ch(v)==95); st.assume(lemma(n-1)); st.assume(z3.Implies(e==1,z3.BoolVal(True)))
    vm.lemmas=[lambda v,d: lemma(v)]; vm.positions=[e,e-1,n-1]
    U.on_model=lambda ev,ob: ('trim',bytes(ev(ch(c64(i))).as_long() for i in range(min(ev(n).as_long(),40))))
    def inv(fr,h,X,s):
        for v in T.carried64(X): s.assume(lemma(T.w64(v.x))); s.assume(lemma(T.w64(v.x)-1))
        return []
    def cands(v,fr,h,X,ints,add):
        for t in ints:
            for n_,f in(('not before the last character kept',lambda x: z3.UGE(x,e-1)),('not before the end',lambda x: z3.UGE(x,e)),('in the text',lambda x: z3.ULT(x,n)),('at most its length',lambda x: z3.ULE(x,n))): add(n_,lambda X,g,k=t.key,f=f: f(T.w64(g(k))))
    vm.unit_inv=inv; vm.more_cands=cands
    for o in U.rets(vm,vm.call_fn(prog.funcs[nm],[Ptr(ret,0),src],st),what='deunderscore'):
        d,L=data(vm,o.st,Ptr(ret,0)); vm.oblige(o.st,bv(L,64)==e,'what remains is the text without the underscores at its end'); s=o.st.fork(); s.assume(z3.ULT(q,e)); vm.oblige(s,at_(vm,s,d,q)==ch(q),'the characters that remain are unchanged')
def pad(prog):
    l=[n for n,f in prog.funcs.items() if not f.decl and re.match(r'msat::xrit::underscoreit(\[abi:cxx11\])?\(%s const&, int\)$'%re.escape(STR),prog.dem.get(n,''))]; return l[0] if l else None
WIDTH=(9,12)
def padded(vm,st,a,I):
    """contract of underscoreit (in texts known by their parts): the text, and underscores up to the width"""
    if a[2] not in WIDTH: return NotImplemented
    l=parts(vm,st,a[1]); n=bv(length(l),64); put(vm,st,a[0],T.fresh_text(vm,st),0); out=[]
    for short in(True,False):
        c=z3.ULT(n,a[2]) if short else z3.UGE(n,a[2]); s=st.fork(); s.assume(c)
        if not vm.feasible_pc(s): continue
        rope(vm,s,a[0],l+([('fill',95,nrm(a[2]-n))] if short else [])); out.append(Outcome('ret',s,None))
    return out
def unit_pad(w,long):
    """the body of underscoreit"""
    def f(U):
        prog,vm=setup(U); nm=pad(prog)
        if not nm: U.notes.append('no function underscoreit'); return
        st=State(); src,A,n=T.text(vm,st,'t',maxlen=LIM); q=z3.BitVec('q',64); st.assume(z3.UGT(n,w) if long else z3.ULE(n,w)); ret=vm.new(st,'result',32,'heap'); want=n if long else c64(w); vm.positions=[q]; ch=lambda k: z3.If(z3.ULT(k,n),z3.Select(A,k),z3.BitVecVal(95,8))
        key=('m',ret.id,8)
        def inv(fr,h,X,s):
            if key not in X: return []
            return [('what was written so far',lambda vals,s2: z3.Implies(z3.ULT(q,T.w64(vals[key])),at_(vm,s2,data(vm,s2,Ptr(ret,0))[0],q)==ch(q)))]
        def cands(v,fr,h,X,ints,add):
            if key in X: add('at most the width',lambda X,g: z3.ULE(T.w64(g(key)),want)); add('at least the text',lambda X,g: z3.UGE(T.w64(g(key)),n))
        vm.unit_inv=inv; vm.more_cands=cands
        U.on_model=lambda ev,ob: ('files','segment',[1,1,min(ev(n).as_long(),20),min(ev(n).as_long(),20),1])
        for o in U.rets(vm,vm.call_fn(prog.funcs[nm],[Ptr(ret,0),src,w],st),what='underscoreit'):
            d,L=data(vm,o.st,Ptr(ret,0)); vm.oblige(o.st,bv(L,64)==want,'a text shorter than %d is made that long, others stay'%w); s=o.st.fork(); s.assume(z3.ULT(q,want)); vm.oblige(s,at_(vm,s,d,q)==ch(q),'the text, then underscores')
    return f
def trim(prog):
    l=[n for n,f in prog.funcs.items() if not f.decl and re.match(r'msat::xrit::deunderscore(\[abi:cxx11\])?\(%s const&\)$'%re.escape(STR),prog.dem.get(n,''))]; return l[0] if l else None
def fn(prog,rx):
    rx=CLS+'::'+rx; l=[n for n,f in prog.funcs.items() if not f.decl and re.match(rx,prog.dem.get(n,'').replace('[abi:cxx11]',''))]
    if not l: raise Unsupported('no function %s on this tree'%rx)
    return prog.funcs[l[0]]
FORMS={'short':(':',('resolution','productid1','productid2','timing')),'segment':('-',('resolution',None,None,'productid1','productid2',None,'timing','C_'))}
DIRS=('directory','root','none')
def has_array(t):
    todo=[t]
    while todo:
        x=todo.pop()
        if z3.is_select(x): return True
        todo+=x.children()
    return False
def name(vm,st,form,dirs,count=None,ctx=None):
    """an arbitrary name in the form; (string, characters, length, {component: (from, to)})"""
    N=z3.Array('name',B64,B8); n=z3.BitVec('size',64); st.assume(z3.ULE(n,LIM)); st.assume(z3.Select(N,n)==0); ch=lambda k: z3.Select(N,k); sep,parts=FORMS[form]; sep=ord(sep)
    k=len(parts)-1 if count is None else count
    slash=z3.BitVec('slash',64) if dirs=='directory' else c64(0); beg=slash+1 if dirs!='none' else c64(0)
    if dirs!='none': st.assume(ch(slash)==47)
    if dirs=='directory': st.assume(z3.UGE(slash,1)); st.assume(z3.ULT(slash,n))
    S=[z3.BitVec('sep%d'%i,64) for i in range(k)]
    if form=='segment' and k: st.assume(S[-1]==n-3)
    last=beg
    for s in S: st.assume(z3.UGE(s,last)); st.assume(z3.ULT(s,n)); st.assume(ch(s)==sep); last=s+1
    st.assume(z3.ULE(last,n)); st.assume(z3.UGE(n,3)); tail=z3.And(ch(n-3)==45,ch(n-2)==67,ch(n-1)==95)
    st.assume(tail if form=='segment' else z3.Not(tail))
    ends={}; lem=[]; vm.order=[x for x in st.pc if not has_array(x)]
    if count is None:
        for i,p in enumerate(parts):
            if p in MEM: ends[p]=(beg if i==0 else S[i-1]+1,S[i] if i<len(S) else n)
        if form=='segment':
            for p in('productid1','productid2','timing'):
                b,e=ends[p]; w=z3.BitVec('end_'+p,64); st.assume(z3.And(z3.ULT(b,w),z3.ULE(w,e))); st.assume(ch(w-1)!=95); ends[p]=(b,w); lem.append((w,e))
    seps=list(S)
    def lemma(v): return z3.Implies(z3.And(z3.UGE(v,beg),z3.ULT(v,n)),z3.And(ch(v)!=47,z3.Or((ch(v)!=sep),*[v==s for s in seps]+([z3.UGT(v,S[-1])] if form=='short' and k==3 else [])),*[z3.Implies(z3.And(z3.ULE(w,v),z3.ULT(v,e)),ch(v)==95) for w,e in lem]))
    vm.positions=[*S]+([slash] if dirs!='none' else [])
    d=vm.new(st,'name',nrm(n+1),'heap',N,const=True); o=vm.new(st,'name string',32,'heap'); vm.write(st,o,0,8,Ptr(d,0)); vm.write(st,o,8,8,n)
    vm.lemmas=[lambda v,q: lemma(v) if q.obj is d and q.off==0 else z3.BoolVal(True)]
    if lem: vm.ends=[(d,ends[p][0],ends[p][1],e) for p,(w,e) in zip(('productid1','productid2','timing'),lem)]
    if count is None or form=='segment': vm.known.append((d,beg,sep,S,True if form=='segment' else None))
    else: vm.known.append((d,beg,sep,S,True))
    vm.known.append((d,beg,47,[],slash if dirs!='none' else NPOS))
    def inv(fr,h,X,s):
        # positions carried by the loop may be relative to a component
        for v in T.carried64(X):
            x=T.w64(v.x); s.assume(lemma(x))
            for b,w in ends.values(): s.assume(lemma(b+x)); s.assume(lemma(b+x-1))
        return []
    def cands(v,fr,h,X,ints,add):
        for t in ints:
            for p in('productid1','productid2','timing'):
                if p in ends and form=='segment':
                    b,w=ends[p]; add('not before the last character of '+p,lambda X,g,k=t.key,b=b,w=w: z3.UGE(T.w64(g(k)),w-1-b)); add('not before the end of '+p,lambda X,g,k=t.key,b=b,w=w: z3.UGE(T.w64(g(k)),w-b))
                    e=[e for w2,e in lem if w2 is w][0]; add('within '+p,lambda X,g,k=t.key,b=b,e=e: z3.ULT(T.w64(g(k)),e-b)); add('at most the length of '+p,lambda X,g,k=t.key,b=b,e=e: z3.ULE(T.w64(g(k)),e-b))
    vm.unit_inv=inv; vm.more_cands=cands
    return Ptr(o,0),ch,n,beg,ends,lemma
def blank(vm,st,what='this'):
    o=vm.new(st,what,lay()[CLS][0],'heap')
    for m in MEM:
        t,A,n=T.text(vm,st,'old_'+m,const=False,maxlen=LIM); q=Ptr(o,off(m)); d,l=data(vm,st,t); put(vm,st,q,d,l)
    return o
def model(U,vm,n,ch,rnd=None):
    def f(ev,ob):
        k=ev(n).as_long()
        if k>300: return None
        return ('name',bytes(ev(ch(c64(i))).as_long() for i in range(k)))
    U.on_model=f
def unit_parse(form,dirs,ctor):
    def f(U):
        prog,vm=setup(U); st=State(); src,ch,n,beg,ends,lemma=name(vm,st,form,dirs); q=z3.BitVec('q',64); st.assume(lemma(beg+q)); model(U,vm,n,ch)
        this=blank(vm,st) if not ctor else vm.new(st,'this',lay()[CLS][0],'heap'); g=fn(prog,r'(FileAccess|parse)\(%s const&\)$'%re.escape(STR) if False else (r'FileAccess\(' if ctor else r'parse\(')+re.escape(STR)+r' const&\)$')
        for o in U.rets(vm,vm.call_fn(g,[Ptr(this,0),src],st),what='parse'):
            s=o.st
            for m in MEM:
                d,L=data(vm,s,Ptr(this,off(m)))
                if m=='directory' and dirs!='directory':
                    t=b'.' if dirs=='none' else b'/'; vm.oblige(s,bv(L,64)==1,'directory of a name without one: its length'); vm.oblige(s,at_(vm,s,d,c64(0))==t[0],'directory is "%s"'%t.decode()); continue
                b,e=(c64(0),z3.BitVec('slash',64)) if m=='directory' else ends[m]
                vm.oblige(s,bv(L,64)==e-b,'%s: all its characters and no other'%m); s2=s.fork(); s2.assume(z3.ULT(q,e-b)); vm.oblige(s2,at_(vm,s2,d,q)==ch(b+q),'%s: each character'%m)
    return f
def unit_refused(form,dirs,k):
    def f(U):
        prog,vm=setup(U); st=State(); src,ch,n,beg,ends,lemma=name(vm,st,form,dirs,k); this=blank(vm,st); model(U,vm,n,ch)
        outs=vm.call_fn(fn(prog,r'parse\(%s const&\)$'%re.escape(STR)),[Ptr(this,0),src],st)
        U.rets(vm,outs,allow=('throw',),what='parse of an incomplete name'); th=[o for o in outs if o.kind=='throw']
        for o in outs:
            if o.kind=='ret': vm.oblige(o.st,z3.BoolVal(False),'a name lacking components is refused')
        U.result('a name lacking components is refused: some refusal',any(U.cover(vm,o.st,'refusal') for o in th) if th else False,kind='cover') if not th else [U.cover(vm,o.st,'refusal') for o in th]
    return f
def unit_tiny(k):
    def f(U):
        prog,vm=setup(U); st=State(); N=[z3.BitVec('c%d'%i,8) for i in range(k)]; o=vm.new(st,'name',k+1,'heap',const=False); [vm.write(st,o,i,1,c) for i,c in enumerate(N+[0])]; p=vm.new(st,'name string',32,'heap'); vm.write(st,p,0,8,Ptr(o,0)); vm.write(st,p,8,8,k)
        this=blank(vm,st); U.on_model=lambda ev,ob: ('name',bytes(ev(c).as_long() for c in N))
        for x in vm.call_fn(fn(prog,r'parse\(%s const&\)$'%re.escape(STR)),[Ptr(this,0),Ptr(p,0)],st):
            if x.kind!='throw': vm.oblige(x.st,z3.BoolVal(False),'a name of %d characters is refused'%k)
            else: U.cover(vm,x.st,'refusal')
    return f
def isvalid(prog):
    l=[n for n,f in prog.funcs.items() if not f.decl and re.match(r'msat::xrit::isValid\(',prog.dem.get(n,''))]
    if not l: raise Unsupported('no function isValid on this tree')
    return prog.funcs[l[0]]
def unit_valid(form,k=None):
    """a name in either form is one; without directory and with fewer separators it is not"""
    def f(U):
        prog,vm=setup(U); st=State(); src,ch,n,beg,ends,lemma=name(vm,st,form,'directory' if k is None else 'none',k)
        for o in U.rets(vm,vm.call_fn(isvalid(prog),[src],st),what='isValid'):
            r=zbool(o.val) if isinstance(o.val,(bool,z3.BoolRef)) else bv(o.val,8)!=0
            vm.oblige(o.st,r if k is None else z3.Not(r),'isValid is %s'%(k is None))
    return f
def unit_channel(how):
    def f(U):
        prog,vm=setup(U); st=State(); q=z3.BitVec('q',64); ctor=how=='constructor'; other=blank(vm,st,'other'); this=other if how=='itself' else vm.new(st,'this',lay()[CLS][0],'heap')
        if not ctor and how!='itself':
            for m in MEM: t,A,n=T.text(vm,st,'was_'+m,const=False,maxlen=LIM); put(vm,st,Ptr(this,off(m)),*data(vm,st,t))
        src,A,n=T.text(vm,st,'chan',maxlen=LIM); want={m:(z3.Array('old_'+m,B64,B8),z3.BitVec('len_old_'+m,64)) for m in MEM}; want['productid2']=(A,n)
        for o in U.rets(vm,vm.call_fn(fn(prog,(r'FileAccess\(' if ctor else r'parse\(')+re.escape(CLS)+' const&, '),[Ptr(this,0),Ptr(other,0),src],st),what='another channel'):
            for m in MEM:
                d,L=data(vm,o.st,Ptr(this,off(m))); vm.oblige(o.st,bv(L,64)==want[m][1],'%s of another channel: length'%m); s=o.st.fork(); s.assume(z3.ULT(q,want[m][1])); vm.oblige(s,at_(vm,s,d,q)==z3.Select(want[m][0],q),'%s of another channel'%m)
                if this is not other and m!='productid2':
                    d,L=data(vm,o.st,Ptr(other,off(m))); vm.oblige(o.st,bv(L,64)==want[m][1],'%s of the original stays'%m)
    return f
def unit_complete(U):
    prog,vm=setup(U); st=State(); this=blank(vm,st); n=[z3.BitVec('len_old_'+m,64) for m in MEM]; U.on_model=lambda ev,ob: ('complete',[min(ev(x).as_long(),3) for x in n])
    for o in vm.call_fn(fn(prog,r'ensureComplete\('),[Ptr(this,0)],st):
        U.cover(vm,o.st,o.kind)
        if o.kind=='throw': vm.oblige(o.st,z3.Or(*[x==0 for x in n]),'refused only when a component is missing')
        else: vm.oblige(o.st,z3.And(*[x!=0 for x in n]),'nothing is missing')
KIND={'prologue':('prologueFile',[b'_'*9,b'PRO______'],b'__'),'epilogue':('epilogueFile',[b'_'*9,b'EPI______'],b'__'),'segment':('segmentFiles',['productid2',b'0?????___'],b'C_')}
def pattern(kind):
    l=['directory',b'/','resolution',b'-???-??????-',('productid1',12)]
    for x in KIND[kind][1]: l+=[b'-',('productid2',9) if x=='productid2' else x]
    return l+[b'-','timing',b'-'+KIND[kind][2]]
def unit_files(kind,found,long=()):
    """found: none | one | more | any; long: product ids longer than their field"""
    def f(U):
        prog,vm=setup(U); st=State(); q=z3.BitVec('q',64); OFF=z3.Array('path',B64,B64); LEN=z3.Array('pathlen',B64,B64); this=vm.new(st,'this',lay()[CLS][0],'heap'); comp={}
        for m in MEM:
            t,A,n=T.text(vm,st,m,maxlen=LIM); put(vm,st,Ptr(this,off(m)),*data(vm,st,t)); comp[m]=(A,n,data(vm,st,t)[0])
        for m,w in(('productid1',12),('productid2',9)): st.assume(z3.UGT(comp[m][1],w) if m in long else z3.ULE(comp[m][1],w))
        st.assume(z3.ULE(comp['productid1'][1],1<<20)); U.on_model=lambda ev,ob: ('files',kind,[min(ev(comp[m][1]).as_long(),20) for m in MEM])
        paths=vm.new(st,'paths found',1<<60,'heap',z3.Array('paths',B64,B8),const=True)
        ropes(vm,prog)
        # the search
        def glob(v,s,a,I):
            d,n=one(v,s,a[0]),None; g=one(v,s,a[3]); fl=a[1]
            if not isint(fl) or fl&~(8|1|4): raise Unsupported('search with other options')
            size=[z for z in v.__dict__.get('sizes',{}).items()]
            if s.ghost.get('searched'): raise Unsupported('searched more than once')
            s.ghost['searched']=True; want=[]
            if d.obj.id not in v.rope or d.off!=0: raise Unsupported('pattern of unknown parts')
            for x in pattern(kind):
                if isinstance(x,bytes): want.append(('text',x)); continue
                m,w=x if isinstance(x,tuple) else (x,0); want.append(('part',comp[m][2],comp[m][1]))
                if w and m not in long: want.append(('fill',95,nrm(w-comp[m][1])))
            t=v.new(s,'pattern',32,'heap'); rope(v,s,Ptr(t,0),want); want=v.rope[data(v,s,Ptr(t,0))[0].obj.id][0]; got=v.rope[d.obj.id][0]
            got,want=[[x for x in l if x[0]!='fill' or not v.must(s,bv(x[2],64)==0)] for l in(got,want)]; got,want=[v.rope[data(v,s,rope(v,s,Ptr(t,0),l))[0].obj.id][0] for l in(got,want)]
            def agree(a,b):
                if a[0]!=b[0]: return False
                if a[0]=='text': return a[1]==b[1]
                return (a[1]==b[1] if a[0]=='fill' else a[1].obj is b[1].obj and same(a[1].off,b[1].off)) and (same(a[2],b[2]) or v.must(s,bv(a[2],64)==bv(b[2],64)))
            if len(got)==len(want) and all(agree(a,b) for a,b in zip(got,want)): U.ok('files searched: the name made of the components, padded (part by part)',len(want))
            else:
                diff=False # told apart by components of some lengths?
                for ls in((1,1,1,1,1),(3,2,12,9,5),(1,3,4,6,12),(2,1,13,10,4),(2,1,13,3,4),(1,2,17,9,3),(2,4,3,1,1)):
                    ls=dict(zip(MEM,ls))
                    if any((ls[m]>k)!=(m in long) for m,k in(('productid1',12),('productid2',9))): continue
                    s2=s.fork(); [s2.assume(comp[m][1]==ls[m]) for m in MEM]
                    if not v.feasible_pc(s2): continue
                    sub=[(comp[m][1],c64(ls[m])) for m in MEM]
                    def flat(l):
                        o=[]
                        for x in l:
                            if x[0]=='text': o+=[z3.BitVecVal(c,8) for c in x[1]]; continue
                            n=z3.simplify(z3.substitute(bv(x[2],64),*sub))
                            if not z3.is_bv_value(n) or n.as_long()>200: raise Unsupported('pattern of unknown parts')
                            o+=[z3.BitVecVal(x[1],8) if x[0]=='fill' else at_(v,s2,x[1],c64(i)) for i in range(n.as_long())]
                        return o
                    a,b=flat(got),flat(want)
                    if len(a)==len(b) and all(x.eq(y) or v.must(s2,x==y) for x,y in zip(a,b)): continue
                    diff=True; v.oblige(s2,z3.BoolVal(len(a)==len(b)),'files searched: length of the name made of the components'); [v.oblige(s2,x==y,'files searched: character %d of the name made of the components'%i) for i,(x,y) in enumerate(zip(a,b))]
                if not diff: raise Unsupported('pattern put together in another way')
            v.assumptions.add('glob delivers the files matching the pattern (POSIX)')
            offs=v.read(s,g.obj,off_add(g.off,16),8) if fl&8 else 0
            if not isint(offs) or offs>64: raise Unsupported('offset of the files found')
            code=z3.BitVec('globcode',32)
            if found=='none': s.assume(code!=0); return code
            s.assume(code==0); cnt=z3.BitVec('found',64); s.assume({'one':cnt==1,'more':z3.And(z3.UGT(cnt,1),z3.ULT(cnt,1<<40)),'any':z3.And(z3.UGE(cnt,1),z3.ULT(cnt,1<<40))}[found])
            def content(c,s_,at,k):
                if k!=8: raise Unsupported('part of a pointer')
                if isint(at):
                    if at//8<offs: return NULL
                ix=z3.LShR(bv(at,64),3)-offs; return Ptr(paths,z3.Select(OFF,z3.simplify(ix)))
            pv=v.new(s,'pathv',nrm(8*(cnt+offs)+8),'heap',content); v.write(s,g.obj,g.off,8,1 if found=='one' else cnt); v.write(s,g.obj,off_add(g.off,8),8,Ptr(pv,0)); s.ghost['cnt']=cnt; s.ghost['offs']=offs
            return code
        vm.models['glob']=glob; vm.models['glob64']=glob; vm.models['globfree']=lambda v,s,a,I: None; vm.models['globfree64']=vm.models['globfree']
        def path(v,s,p,what):
            """which path the text at p is"""
            p=one(v,s,p); return p if isinstance(p,Ptr) and p.obj is paths else None
        def cstr(v,s,a,I):
            p=one(v,s,a[1])
            if p.obj is not paths: return old(v,s,a,I)
            put(v,s,a[0],p,z3.Select(LEN,bv(p.off,64))); return None
        for nm,d in prog.dem.items():
            if re.match(re.escape(STR)+r'::(basic_string(<std::allocator<char>>)?\(char const\*, std::allocator<char> const&\))$',d): old=vm.contracts[nm]; vm.contracts[nm]=cstr
        VEC=r'std::vector<%s, std::allocator<%s>>::'%(re.escape(STR),re.escape(STR)); ret=vm.new(st,'result',32,'heap')
        def push(v,s,a,I):
            V=one(v,s,a[0]); c=v.read(s,V.obj,V.off,8); d,L=data(v,s,a[1])
            if d.obj is not paths: v.oblige(s,z3.BoolVal(False),'only files found are delivered'); return None
            v.oblige(s,bv(d.off,64)==z3.Select(OFF,bv(c,64)),'each file found is delivered, in the order found'); v.write(s,V.obj,V.off,8,nrm(bv(c,64)+1)); return None
        for nm,d in prog.dem.items():
            d=d.replace('[abi:cxx11]','')
            if re.match(VEC+r'vector\(\)$',d): vm.contracts[nm]=lambda v,s,a,I:(lambda V: v.write(s,V.obj,V.off,8,0))(one(v,s,a[0]))
            if re.match(VEC+r'push_back\(%s( const)?&&?\)$'%re.escape(STR),d) or re.match(r'.*'+VEC+r'emplace_back<%s>\('%re.escape(STR),d): vm.contracts[nm]=push
            if re.match(VEC+r'(~vector\(\)|reserve\()',d): vm.contracts[nm]=lambda v,s,a,I: None
        key=('m',ret.id,0)
        def cands(v,fr,h,X,ints,add):
            for t in ints:
                add('within the files found',lambda X,g,k=t.key: z3.ULE(T.w64(g(k)),z3.BitVec('found',64)))
                if key in X and t.key!=key: add('as many delivered as passed',lambda X,g,k=t.key: T.w64(g(k))==T.w64(g(key)))
        vm.more_cands=cands
        outs=vm.call_fn(fn(prog,KIND[kind][0]+r'\('),[Ptr(ret,0),Ptr(this,0)],st); refuse=found=='none' or found=='more'
        for o in outs: U.cover(vm,o.st,o.kind); vm.oblige(o.st,z3.BoolVal(bool(o.st.ghost.get('searched'))),'files are searched')
        for o in outs:
            if (o.kind=='throw')!=refuse: vm.oblige(o.st,z3.BoolVal(False),('no file or an ambiguous one is refused' if refuse else 'the files found are delivered')); continue
            if refuse: continue
            s=o.st
            if kind=='segment': vm.oblige(s,bv(vm.read(s,ret,0,8),64)==s.ghost['cnt'],'as many files are delivered as are found')
            else:
                d,L=data(vm,s,Ptr(ret,0)); U.result('the file delivered is one found',d.obj is paths)
                if d.obj is paths: vm.oblige(s,bv(d.off,64)==z3.Select(OFF,c64(0)),'the file found is delivered'); vm.oblige(s,bv(L,64)==z3.Select(LEN,bv(d.off,64)),'its whole name')
        if not outs: raise Unsupported('no outcome')
    return f
