"""Extraction (clang -> LLVM IR) and native builds, always from /repo's current working tree."""
from concurrent.futures import ThreadPoolExecutor
import os, threading, subprocess, hashlib, shutil, tempfile, atexit
REPO=os.environ.get('VERIF_REPO','/repo'); VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS=['-std=c++17','-D_FILE_OFFSET_BITS=64','-I'+REPO,'-I'+VERIF+'/include','-I/usr/include/gdal','-DHAVE_CONFIG_H']
class InfraError(Exception): pass
_tmp=None
def workdir():
    global _tmp
    if _tmp is None:
        _tmp=tempfile.mkdtemp(prefix='msatverif.')
        atexit.register(lambda: shutil.rmtree(_tmp,ignore_errors=True))
    return _tmp
def run(cmd,timeout=600,**kw):
    return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=timeout,**kw)
def emit_ir(src,extra=(),text=None,passes='sroa,loop-simplify',noinline=True):
    """src: path relative to /repo (or absolute). Returns path of optimised (sroa only) .bc"""
    wd=workdir()
    path=src if os.path.isabs(src) else os.path.join(REPO,src)
    base=os.path.join(wd,hashlib.sha1((path+repr(extra)).encode()).hexdigest()[:12])
    if os.path.exists(base+'.bc'): return base+'.bc'
    final=base; base='%s.p%d.%d'%(base,os.getpid(),threading.get_ident()%100000)
    isc=path.endswith('.c')
    cc=['clang-18'] if isc else ['clang++-18']
    fl=[f for f in FLAGS if not (isc and f.startswith('-std'))]
    cmd=cc+fl+list(extra)+['-O0','-Xclang','-disable-O0-optnone','-gline-tables-only','-fno-discard-value-names','-w','-fno-access-control','-c','-emit-llvm',path,'-o',base+'.0.bc']
    if isc: cmd.remove('-fno-access-control')
    r=run(cmd)
    if r.returncode: raise InfraError('clang failed on %s:\n%s'%(src,r.stderr.decode()[-3000:]))
    r=run(['opt-18','-passes='+passes,base+'.0.bc','-o',base+'.bc'])
    if r.returncode: raise InfraError('opt failed: '+r.stderr.decode()[-2000:])
    os.rename(base+'.bc',final+'.bc'); return final+'.bc'
def emit_many(srcs,extra=()):
    pass
    with ThreadPoolExecutor(8) as ex: return list(ex.map(lambda s: emit_ir(s,extra),srcs))
def native(name,sources,extra=(),libs=(),san=True,cxx='g++',opt='-O1'):
    wd=workdir(); out=os.path.join(wd,name)
    pass
    sanf=['-fsanitize=address,undefined','-fno-sanitize=vptr','-fno-omit-frame-pointer'] if san else []
    def comp(s):
        path=s if os.path.isabs(s) else os.path.join(REPO,s)
        o=os.path.join(wd,hashlib.sha1((path+name).encode()).hexdigest()[:12]+'.o')
        isc=path.endswith('.c')
        r=run(['gcc' if isc else cxx]+[f for f in FLAGS if not (isc and f.startswith('-std'))]+([] if isc else ['-fno-access-control'])+sanf+list(extra)+[opt,'-g1','-w','-c',path,'-o',o])
        if r.returncode: raise InfraError('compile of %s failed:\n%s'%(s,r.stderr.decode()[-3000:]))
        return o
    with ThreadPoolExecutor(8) as ex: objs=list(ex.map(comp,sources))
    r=run([cxx]+sanf+['-o',out]+objs+list(libs))
    if r.returncode: raise InfraError('link of %s failed:\n%s'%(name,r.stderr.decode()[-3000:]))
    return out
