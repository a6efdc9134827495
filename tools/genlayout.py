"""one-off helper: list where each member of a decoded record comes from (input to the hand-reviewed specs/*.py)"""
import sys; sys.path.insert(0,'/verif/engine')
from vm import *
import build, llvmir, layout, threading, re
def classify(v,n,arr):
    z=lambda e: simp(e) if isinstance(e,z3.ExprRef) else e
    if isinstance(v,(int,float)) : return ('const',v,0)
    v=z(v) if not isinstance(v,z3.FPRef) else v
    raw=v; b=fp_bits(v,n) if isinstance(v,z3.FPRef) else bv(v,8*n) if not isinstance(v,z3.BoolRef) else v
    idx=set(); st=[b]; seen=set()
    while st:
        e=st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_select(e): 
            i=norm(z3.simplify(e.arg(1)))
            if not isinstance(i,int): return ('sym',str(e),0)
            idx.add(i)
        else: st+=e.children()
    if not idx: return ('?',str(v)[:80],0)
    lo=min(idx); m=max(idx)-lo+1
    if m not in(1,2,3,4,8): return ('expr',sorted(idx)[0],m)
    be=z3.Concat(*[z3.Select(arr,z3.BitVecVal(lo+i,64)) for i in range(m)]) if m>1 else z3.Select(arr,z3.BitVecVal(lo,64))
    def eq(x,y):
        if x.sort()!=y.sort(): return False
        e=z3.simplify(x==y)
        if z3.is_true(e): return True
        S=z3.Solver(); S.set('timeout',2000); S.add(x!=y); return S.check()==z3.unsat
    w=8*n
    if isinstance(v,z3.FPRef) and m==n and eq(b,be): return ('f%d'%m,lo,m)
    if not isinstance(b,z3.BoolRef):
        if m==n and eq(b,be): return ('u%d'%m,lo,m)
        if m<n and eq(b,z3.ZeroExt(w-8*m,be)): return ('u%d'%m,lo,m)
        if m<n and eq(b,z3.SignExt(w-8*m,be)): return ('s%d'%m,lo,m)
        if m>n and eq(b,z3.Extract(w-1,0,be)): return ('t%d'%m,lo,m)
        if eq(b,z3.If(be!=0,z3.BitVecVal(1,w),z3.BitVecVal(0,w))): return ('b%d'%m,lo,m)
        if m==n:
            le=z3.Concat(*[z3.Select(arr,z3.BitVecVal(lo+i,64)) for i in reversed(range(m))])
            if eq(b,le): return ('raw',lo,m)
    return ('expr',lo,m,str(z3.simplify(b))[:200])
def dumprec(prog,recs,fname,cls,out,nargs=1,args=None,setup=None):
    vm=VM(prog); st=State(); vm.check_mem=False
    b=vm.buf(st,'buf',1<<22); arr=b.meta['arr']
    this=vm.new(st,'this',layout.sizeof(recs,cls))
    if setup: setup(vm,st,this)
    a=[Ptr(this,0),Ptr(b,0)]+(args or [])
    r=vm.call_fn(prog.funcs[fname],a,st)
    for o in r:
        out.write('== %s -> %s %s\n'%(cls,o.kind,o.val))
        c=o.st.mem[this.id]
        lv=layout.flatten(recs,cls)
        items=[]; seen=set()
        L=c.layers
        for p,off,es,ty,dims in lv:
            def rec(d,o2,ix):
                if d==len(dims):
                    try: v=vm._read(o.st,c,len(L)-1,o2,es,this)
                    except Unsupported as e: items.append((1<<40,p,ix,('unsup',str(e)),ty)); return
                    if v is UNDEF: items.append((1<<41,p,ix,('UNSET',),ty)); return
                    k=classify(v,es,arr); items.append((k[1] if isinstance(k[1],int) and k[0] not in('const',) else 1<<42,p,ix,k,ty)); return
                for i in range(dims[d][0]): rec(d+1,o2+i*dims[d][1],ix+(i,))
            rec(0,off,())
        items.sort(key=lambda x:(x[0],))
        by={}
        for x in items: by.setdefault(x[1],[]).append(x)
        rows=[]
        for p,xs in by.items():
            kinds={str(x[3][0]) for x in xs}
            x0=xs[0]; dm={}
            nd=len(x0[2])
            offs={x[2]:x[0] for x in xs}
            z0=(0,)*nd; st=[]; cnt=[]
            for d in range(nd):
                n=max(k[d] for k in offs)+1; cnt.append(n)
                e=list(z0); e[d]=1; st.append(offs[tuple(e)]-offs[z0] if n>1 else 0)
            reg=all(o==offs[z0]+sum(a*b for a,b in zip(k,st)) for k,o in offs.items())
            rows.append((offs.get(z0,0),p,cnt,st,kinds,reg,x0[4],x0[3]))
        rows.sort(key=lambda r:r[0])
        for r in rows:
            if re.search(r'(unixtime|usecs)$',r[1]) and r[4]=={'expr'}: continue
            out.write('%s %s %s %s %s %s%s %s\n'%(r[0] if r[0]<1<<40 else '-',r[1],'x'.join(map(str,r[2])),r[3] or '',r[6],'/'.join(sorted(r[4])),'' if r[5] else ' IRREGULAR',r[7] if r[4]&{'expr','?','sym','unsup','const'} else ''))
    return vm
if __name__=='__main__':
    def main():
        which=sys.argv[1]; src=sys.argv[2].split(','); hdr=sys.argv[3]; cls=sys.argv[4]
        bcs=build.emit_many(src)
        prog=Program([llvmir.Module(b) for b in bcs])
        recs=layout.dump('#include <%s>\nint z=sizeof(%s);\n'%(hdr,cls))
        f=prog.find(which)
        dumprec(prog,recs,f[0],cls,sys.stdout)
    t=threading.Thread(target=main); t.start(); t.join()
