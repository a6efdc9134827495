#!/usr/bin/env python3
# fills the list of planted bugs in DESIGN.md
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p=os.path.join(V,'DESIGN.md'); s=open(p).read(); b={}
for d in sorted(glob.glob(os.path.join(V,'seeded','*'))):
    m=json.load(open(os.path.join(d,'meta.json'))); b.setdefault(m['property'],[]).append('%s (%s)'%(os.path.basename(d).split('-',1)[1],m['what_it_breaks']))
t='<!-- seeds -->\n'+'\n'.join('* **%s**: %s'%(k,'; '.join(v)) for k,v in b.items())+'\n<!-- end -->'
s=s.replace('@SEEDS@',t) if '@SEEDS@' in s else re.sub(r'<!-- seeds -->.*<!-- end -->',lambda m:t,s,flags=re.S); open(p,'w').write(s)
