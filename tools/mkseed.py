#!/usr/bin/env python3
"""tools/mkseed.py DEFFILE: DEFFILE is Python calling seed(id, property, [(file, old, new)...], needs, breaks, demo_cpp, sources, extra_flags, libs, demo_sh).
Writes /verif/seeded/<id>/ with patch.diff, demo.cpp, demo.sh and meta.json."""
import sys, os, json, subprocess as sp
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH='''#!/bin/bash
# cwd: the repository, built. Exit 0 when the property holds on the inputs below.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -fno-access-control -DHAVE_CONFIG_H %s -I. -I_build/out -I/usr/include/gdal "$d/demo.cpp" %s -o "$t/demo" %s || exit 3
cd "$t" && timeout 60 ./demo
'''
def seed(id,prop,edits,needs,breaks,cpp='',sources=(),flags='',libs='',sh=None):
    d=V+'/seeded/'+id; os.makedirs(d,exist_ok=True)
    assert not sp.run('git -C /repo status --porcelain',shell=True,stdout=sp.PIPE).stdout.strip(),'dirty'
    try:
        for f,a,b in edits:
            p='/repo/'+f; t=open(p).read(); assert t.count(a)==1,(id,f,t.count(a),a); open(p,'w').write(t.replace(a,b))
        df=sp.run('git -C /repo diff',shell=True,stdout=sp.PIPE).stdout; assert df; open(d+'/patch.diff','wb').write(df)
    finally: sp.run('git -C /repo checkout -q -- .',shell=True)
    if cpp: open(d+'/demo.cpp','w').write(cpp)
    open(d+'/demo.sh','w').write(sh or SH%(flags,' '.join(sources),libs))
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    print('made',id)
exec(open(sys.argv[1]).read())
