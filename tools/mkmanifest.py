#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the checks that exist and the notes below.
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE="Contracts on the real functions, proved for all inputs from the LLVM IR clang emits for /repo's current sources; trusts clang's front end, the VC generator in /verif/engine, z3/cvc5 and the runtime contracts listed in the evidence. Every run also replays the same contracts on the binary built from /repo."
NOTE={
'C01':"All 12 prologue/epilogue records plus the accessors and the MSG_data prologue/epilogue drivers; no bound.",
}
REASON={}
exec(open(os.path.join(V,'tools','notes.py')).read()) if os.path.exists(os.path.join(V,'tools','notes.py')) else None
props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(os.path.join(V,'checks',i+'.py')):
        cmd='python3-vt checks/%s.py'%i
        checks.append(dict(property=i,quick_cmd='VERIF_TIER=quick '+cmd,thorough_cmd='VERIF_TIER=thorough '+cmd,technique='contract-based deductive verification (function contracts over clang LLVM IR, VCs by z3/cvc5)',level='proof',level_note=(NOTE.get(i,'')+' '+BASE).strip()))
    else: na.append(dict(property=i,reason=REASON.get(i,'no check is built for it yet')))
json.dump(dict(version=1,setup_cmd='python3-vt -c "import z3"',checks=checks,not_applicable=na,notes='Engine in engine/, specifications in specs/, one check per property in checks/, concrete harnesses in harness/. See DESIGN.md.'),open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
