#!/usr/bin/env python3
"""tools/seed.py ID...|all [--nocheck]   validate planted bugs: applies, builds, stable tests pass, demo fails with / passes without the
patch; then runs the property's quick check on the patched tree and reports whether it is caught. Leaves /repo as it was."""
import sys, os, json, subprocess as sp, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S=V+'/seeded'
def sh(c,**k): return sp.run(c,shell=True,stdout=sp.PIPE,stderr=sp.STDOUT,**k)
def clean(): sh('git -C /repo checkout -- .')
def build(): return sh('bash /opt/vp/build.sh')
def demo(i): 
    import tempfile,shutil
    d=tempfile.mkdtemp(prefix='seeddemo'); 
    for f in os.listdir(S+'/'+i):
        if f!='meta.json' and not f.endswith(('.diff','.patch')): shutil.copy(S+'/'+i+'/'+f,d)
    try: r=sp.run(['bash',d+'/demo.sh'],cwd='/repo',stdout=sp.PIPE,stderr=sp.STDOUT,timeout=300)
    finally: shutil.rmtree(d)
    return r
def main():
    ids=[a for a in sys.argv[1:] if not a.startswith('--')]
    if ids==['all']: ids=sorted(os.listdir(S))
    assert not sh('git -C /repo status --porcelain').stdout.strip(),'dirty /repo'
    r=build(); assert r.returncode==0,r.stdout
    base={i:demo(i) for i in ids}
    for i in ids:
        pid=json.load(open(S+'/%s/meta.json'%i))['property']; note=[]
        if base[i].returncode: note.append('DEMO FAILS ON CLEAN TREE: '+base[i].stdout.decode()[-600:])
        try:
            r=sh('git -C /repo apply %s/%s/patch.diff'%(S,i))
            if r.returncode: print(i,'DOES NOT APPLY',r.stdout.decode()); continue
            r=build()
            if r.returncode: print(i,'DOES NOT BUILD',r.stdout.decode()[-1500:]); continue
            sh('bash /opt/vp/test.sh /tmp/seed_o.json')
            o=json.load(open('/tmp/seed_o.json')); b=json.load(open('/opt/vp/BASELINE.json')); m=set(b['stable'])-set(o['passed'])
            if m: note.append('TESTS FAIL %s'%m)
            d=demo(i)
            if d.returncode==0: note.append('DEMO PASSES WITH PATCH')
            if '--nocheck' not in sys.argv:
                c=sh('python3-vt checks/%s.py'%pid,cwd=V,env=dict(os.environ,VERIF_TIER='quick',VERIF_SEED='1'))
                t=c.stdout.decode(); v=re.findall(r'^VIOLATION property=%s.*$'%pid,t,re.M)
                note.append(('CAUGHT' if c.returncode==1 and v else 'MISSED rc=%d'%c.returncode)+(' (no input)' if v and 'no-failing' in v[0] else ''))
                note.append(' | '.join(l[:220] for l in t.split('\n') if l.startswith(('violation','failed','NOT-PROVED')))); note.append(t.strip().split('\n')[-1][-120:])
        finally: clean()
        print(i,pid,'; '.join(note),flush=True)
    build()
main()
