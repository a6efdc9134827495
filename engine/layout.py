"""C++ record layouts from clang (offsets of the members named in the specifications)."""
import re, subprocess, build
BASE={'unsigned char':1,'char':1,'signed char':1,'unsigned short':2,'short':2,'unsigned int':4,'int':4,'long':8,'unsigned long':8,'long long':8,'unsigned long long':8,'float':4,'double':8,'bool':1,'_Bool':1,'time_t':8,'size_t':8}
def dump(header_text,extra=()):
    done=set()
    for it in range(6):
        recs=_dump(header_text,extra)
        need=set()
        for c,(sz,lv) in recs.items():
            if c.startswith('std::') or c.startswith('__'): continue
            for l in lv:
                m=re.match(r'(.*?)(\[\d+\])+$',l[2])
                if m:
                    e=re.sub(r'^(class|struct|union|enum) ','',m.group(1).strip())
                    if re.match(r'^[A-Za-z_][\w:]*$',e) and e not in BASE and not e.startswith('t_enum') and e not in recs and e not in done: need.add(e)
        if not need: recs['$sizes']=_sizes(header_text,recs,extra); return recs
        done|=need
        for e in need: header_text+='\nstatic int z_%s=sizeof(%s);'%(re.sub(r'\W','_',e),e)
    return recs
def _dump(header_text,extra=()):
    import os
    wd=build.workdir(); p=os.path.join(wd,'lay%d.%d.cpp'%(os.getpid(),abs(hash(header_text))%10**9)); open(p,'w').write(header_text)
    r=build.run(['clang++-18']+build.FLAGS+list(extra)+['-w','-fno-access-control','-Xclang','-fdump-record-layouts','-fsyntax-only',p])
    if r.returncode: raise build.InfraError('layout probe failed:\n'+r.stderr.decode()[-2000:])
    recs={}
    for sec in r.stdout.decode().split('*** Dumping AST Record Layout')[1:]:
        lines=[l for l in sec.split('\n') if '|' in l]
        m=re.match(r'\s*0 \| (?:class|struct|union) (.*?)( \(empty\))?$',lines[0])
        if not m: continue
        leaves=[]; stack=[]
        sz=None
        for l in lines[1:]:
            x=re.match(r'\s*\| \[sizeof=(\d+)',l)
            if x: sz=int(x.group(1)); break
            x=re.match(r'\s*(\d+)(:\S+)? \|( +)(.*)$',l)
            if not x: continue
            off=int(x.group(1)); ind=len(x.group(3))//2; txt=x.group(4)
            txt=re.sub(r' \((primary base|empty)\)$','',txt)
            base=txt.endswith('(base)')
            if base: txt=txt[:-7]
            ty,name=(txt,'') if base else (txt.rsplit(' ',1) if ' ' in txt else (txt,''))
            agg=re.match(r'(class|struct|union) ',ty)
            stack=stack[:ind-1]+[(name,bool(agg))]
            leaves.append((ind,off,re.sub(r'^(class|struct|union|enum) ','',ty),name,bool(agg),base,'.'.join(n for n,_ in stack if n)))
        recs[m.group(1)]=(sz,leaves)
    return recs
def _sizes(header_text,recs,extra=()):
    """sizeof of every element type that is neither fundamental nor a record (enums, packed typedef'd structs)"""
    tys=set()
    for c,v in recs.items():
        if c.startswith('std::') or c.startswith('__'): continue
        for l in v[1]:
            e=re.sub(r'(\[\d+\])+$','',l[2]).strip(); e=re.sub(r'^(class|struct|union|enum) ','',e)
            if re.match(r'^[A-Za-z_][\w:]*$',e) and e not in BASE and e not in recs: tys.add(e)
    tys=sorted(tys)
    for attempt in range(2):
        import os
        p=os.path.join(build.workdir(),'sz%d.%d.cpp'%(os.getpid(),attempt))
        open(p,'w').write(header_text+''.join('\nextern "C" const unsigned long zsz_%d; const unsigned long zsz_%d=sizeof(%s);'%(i,i,t) for i,t in enumerate(tys)))
        r=build.run(['clang++-18']+build.FLAGS+list(extra)+['-w','-fno-access-control','-S','-emit-llvm','-o','-',p])
        if r.returncode==0: break
        bad={int(m) for m in re.findall(r'zsz_(\d+)=sizeof',r.stderr.decode())}
        tys=[t for i,t in enumerate(tys) if i not in bad]
    return {tys[int(i)]:int(v) for i,v in re.findall(r'@zsz_(\d+) = .*?constant i64 (\d+)',r.stdout.decode())}
def flatten(recs,cls,prefix='',base=0,dims=()):
    """-> list of (path, offset, size, type, [(count,stride)...])"""
    out=[]
    sz,leaves=recs[cls]
    n=len(leaves)
    for i,(ind,off,ty,name,agg,isbase,path) in enumerate(leaves):
        nxt=leaves[i+1][0] if i+1<n else 0
        if agg and nxt>ind: continue     # expanded below
        if isbase: continue
        p=(prefix+'.' if prefix else '')+path
        m=re.match(r'(.*?)((?:\[\d+\])+)$',ty)
        ds=[]; el=ty
        if m:
            el=m.group(1).strip(); ds=[int(x) for x in re.findall(r'\d+',m.group(2))]
        el2=re.sub(r'^(class|struct|union|enum) ','',el)
        if el2 in recs:
            es=recs[el2][0]
        elif el2 in BASE: es=BASE[el2]
        elif el2.endswith('*'): es=8
        else: es=recs.get('$sizes',{}).get(el2,4)
        st=[]; s=es
        for d in reversed(ds): st.insert(0,(d,s)); s*=d
        if el2 in recs and (ds or recs[el2][1]):
            out+=flatten(recs,el2,p+'[]'*len(ds),base+off,tuple(dims)+tuple(st))
        else:
            out.append((p+'[]'*len(ds),base+off,es,el2,tuple(dims)+tuple(st)))
    return out
def sizeof(recs,cls): return recs[cls][0]
