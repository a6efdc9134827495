"""Concrete side of the record tables: generation of record bytes and comparison of decoded objects."""
import records, layout
RECS=records.load()
def members(recs,cls):
    """path -> (offset,size,dims)"""
    return {p:(o,n,d) for p,o,n,t,d in layout.flatten(recs,cls)}
def locate(mem,path,ix):
    m=mem.get(path)
    if m is None: return None
    o,n,dims=m
    if len(dims)!=len(ix): return None
    for i,(c,s) in zip(ix,dims):
        if i>=c: return None
        o+=i*s
    return o,n
def gen(rnd,cls,mode):
    L=RECS[cls]['length']
    if mode=='random': b=bytearray(rnd.randbytes(L))
    elif mode=='count': b=bytearray((i*7+(i>>8)*13+1)&255 for i in range(L))
    elif mode=='ff': b=bytearray(b'\xff'*L)
    elif mode=='small': b=bytearray(rnd.choice(b'\0\0\0\1\x7f\x80\xff') for _ in range(L))
    for f in RECS[cls]['fields']:
        if f.kind=='gt':
            for ix,o in f.elems(): b[o:o+15]=b'%04d%02d%02d%02d%02d%02dZ'%(rnd.randint(1901,2999),rnd.randint(1,12),rnd.randint(1,28),rnd.randint(0,23),rnd.randint(0,59),rnd.randint(0,59))
    return bytes(b)
def cmpmem(C,cls,mem,b,o,tag):
    rec=RECS[cls]; bad=0; n=0
    for path,ix,kind,fo in records.expand(rec):
        loc=locate(mem,path,ix)
        if loc is None: continue
        off,k=loc; got=o[off:off+k]; want=records.concrete(kind,b,fo,ix,k); n+=1
        if not records.agrees(got,want):
            bad+=1
            if bad<=10: C.expect('%s.%s%s'%(cls,path,list(ix)),'%s record (%s), bytes %s at offset %d'%(cls,tag,b[fo:fo+8].hex(),fo),got.hex(),want.hex() if isinstance(want,bytes) else want,key='%s.%s'%(cls,path))
    C.expect('%s: all %d members'%(cls,n),(tag,b[:16].hex()),n-bad if bad<=10 else n-bad,n)
