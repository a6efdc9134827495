"""Specification of the fixed-layout records: the tables in *.txt, used symbolically (proof obligations) and concretely
(oracle for the binary)."""
import os, struct, re, itertools
HERE=os.path.dirname(os.path.abspath(__file__))
W=dict(u1=1,u2=2,u4=4,u8=8,f4=4,f8=8,b1=1,nz2=2,i1=1,i2=2,i4=4)
class Field:
    def __init__(s,off,path,dims,strides,kind): s.off=off; s.path=path; s.dims=dims; s.strides=strides; s.kind=kind
    def elems(s):
        for ix in itertools.product(*[range(d) for d in s.dims]):
            yield ix, s.off+sum(a*b for a,b in zip(ix,s.strides))
def load(fn='records.txt'):
    recs={}; cur=None
    for l in open(os.path.join(HERE,fn)):
        l=l.strip()
        if not l or l[0]=='#': continue
        f=l.split()
        if f[0]=='record': cur=recs[f[1]]=dict(length=int(f[2]),fields=[]); continue
        n=lambda x: () if x=='-' else tuple(int(y) for y in re.split('[x,]',x))
        cur['fields'].append(Field(int(f[0]),f[1],n(f[2]),n(f[3]),f[4]))
    return recs
def coverage(rec):
    """every byte of the record belongs to exactly one field (or documented spare)"""
    use=bytearray(rec['length']); bad=[]
    for f in rec['fields']:
        if f.kind in('cuc','nz2'): continue   # derived from bytes listed elsewhere
        if f.kind=='p12': spans=[(f.off,(12*f.dims[0]+7)//8)]
        elif f.kind=='gt': spans=[(f.off,15)]
        elif f.kind=='raw': spans=[(f.off,2)] if not f.dims else [(o,1) for _,o in f.elems()]
        elif f.kind=='spare': spans=[(o,1) for _,o in f.elems()]
        else: spans=[(o,W[f.kind]) for _,o in f.elems()]
        for o,n in spans:
            for i in range(o,o+n):
                if i>=len(use): bad.append((f.path,i,'beyond the record')); continue
                use[i]+=1
                if use[i]>1: bad.append((f.path,i,'overlap'))
    bad+=[('-',i,'not covered') for i,u in enumerate(use) if not u]
    return bad
def be(b,o,n): return int.from_bytes(b[o:o+n],'big')
def digits(b,o,n):
    s=b[o:o+n]
    return int(s) if s.isdigit() else None
GT=(('tm_year',0,4,-1900),('tm_mon',4,2,-1),('tm_mday',6,2,0),('tm_hour',8,2,0),('tm_min',10,2,0),('tm_sec',12,2,0))
def expand(rec):
    """-> (path, index tuple, kind, file offset, bit index); derived time members included"""
    for f in rec['fields']:
        if f.kind=='spare': continue
        for ix,o in f.elems():
            if f.kind=='gt':
                for k,(m,d,w,adj) in enumerate(GT): yield (f.path+'.'+m,ix,'gt%d'%k,o)
                continue
            yield (f.path,ix,f.kind,o if f.kind!='p12' else f.off)
            if f.path.endswith('.msec_in_day'):
                yield (f.path[:-11]+'unixtime',ix,'unix',o-2); yield (f.path[:-11]+'usecs',ix,'usecs',o)
# ------------------------------------------------------------------ concrete value -> bytes of the member as stored
def concrete(kind,b,o,ix,size):
    """expected little-endian bytes of the member (or ('approx',double))"""
    if kind in('u1','u2','u4','u8'):
        return be(b,o,W[kind]).to_bytes(size,'little') if size>=W[kind] else (be(b,o,W[kind])&((1<<8*size)-1)).to_bytes(size,'little')
    if kind in('i1','i2','i4'):
        v=int.from_bytes(b[o:o+W[kind]],'big',signed=True); return (v&((1<<8*size)-1)).to_bytes(size,'little')
    if kind in('f4','f8'): return b[o:o+W[kind]][::-1]
    if kind=='b1': return bytes([1 if b[o] else 0])
    if kind=='nz2': return bytes([1 if b[o] or b[o+1] else 0])
    if kind=='raw': return b[o:o+size]
    if kind=='p12':
        i=ix[-1]; v=(int.from_bytes(b[o:o+63],'big')>>(63*8-12*(i+1)))&0xfff
        return ('mask',0xfff,v)
    if kind=='unix': return ((86400*be(b,o,2)+be(b,o+2,4)//1000-378691200)&((1<<64)-1)).to_bytes(8,'little')
    if kind=='usecs': return (be(b,o,4)%1000).to_bytes(8,'little')
    if kind=='cuc': return ('approx',sum(b[o+i]*256.0**(3-i) for i in range(7)))
    if kind.startswith('gt'):
        k=int(kind[2:])
        for m,d,w,adj in GT[:k+1]:
            v=digits(b,o+d,w)
            if v is None: return None
        return ((v+GT[k][3])&0xffffffff).to_bytes(4,'little')
    raise KeyError(kind)
def agrees(got,want):
    if want is None: return True
    if isinstance(want,tuple):
        if want[0]=='mask': return int.from_bytes(got,'little')&want[1]==want[2]
        x=struct.unpack('<d',got)[0]; return abs(x-want[1])<=1e-12*abs(want[1])
    return got==want
# ------------------------------------------------------------------ symbolic
def symbolic(vm,arr,kind,o,ix,n):
    """expected value (z3 bit-vector of 8n bits, FP for cuc), and hypothesis"""
    import z3
    from sym import fpz, fbin, RNE, bits_fp
    S=lambda i: z3.Select(arr,z3.BitVecVal(i,64))
    def cat(o,k): return z3.Concat(*[S(o+i) for i in range(k)]) if k>1 else S(o)
    w=8*n
    def ext(e): return z3.ZeroExt(w-e.size(),e) if e.size()<w else e if e.size()==w else z3.Extract(w-1,0,e)
    if kind in('u1','u2','u4','u8'): return ext(cat(o,W[kind])),None
    if kind in('i1','i2','i4'):
        e=cat(o,W[kind]); return (z3.SignExt(w-e.size(),e) if e.size()<w else e),None
    if kind in('f4','f8'): return cat(o,W[kind]),None
    if kind=='b1': return z3.If(S(o)!=0,z3.BitVecVal(1,w),z3.BitVecVal(0,w)),None
    if kind=='nz2': return z3.If(cat(o,2)!=0,z3.BitVecVal(1,w),z3.BitVecVal(0,w)),None
    if kind=='raw': return z3.Concat(*[S(o+i) for i in reversed(range(n))]) if n>1 else S(o),None
    if kind=='p12':
        i=ix[-1]; by=o+(12*i)//8; e=cat(by,2)
        return ('mask',0xfff,z3.Extract(11,0,e) if i%2 else z3.Extract(15,4,e)),None
    Z=lambda e: z3.ZeroExt(64-e.size(),e)
    if kind=='unix': return z3.BitVecVal(86400,64)*Z(cat(o,2))+Z(z3.UDiv(cat(o+2,4),z3.BitVecVal(1000,32)))-378691200,None
    if kind=='usecs': return Z(z3.URem(cat(o,4),z3.BitVecVal(1000,32))),None
    if kind=='cuc':
        r=None
        for i in range(7):
            t=fbin('fmul',256.0**(3-i),z3.fpSignedToFP(RNE,z3.ZeroExt(24,S(o+i)),z3.Float64()),8); r=t if r is None else fbin('fadd',r,t,8)
        return r,None
    if kind.startswith('gt'):
        k=int(kind[2:]); hyp=[]
        for m,d,wd,adj in GT[:k+1]:
            v=z3.BitVecVal(0,32)
            for j in range(wd):
                c=S(o+d+j); hyp.append(z3.And(z3.UGE(c,48),z3.ULE(c,57))); v=v*10+z3.ZeroExt(24,c)-48
        return v+adj,z3.And(*hyp)
    raise KeyError(kind)
