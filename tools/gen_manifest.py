#!/usr/bin/env python3
import json, os, sys
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'); sys.path.insert(0,H)
import plan
TECH={
'C01':'history monitor: model-checked observers over fault-injected histories, ASan',
'C02':'exhaustive single-fault injection per operation/state pair, rollback oracle, ASan',
'C03':'live-object registry and allocation ledger over fault-injected histories, ASan+LSan',
'C04':'model-based history monitor with aliasing workloads, ASan',
'C05':'copy/move event monitor over histories, ASan',
}
TECH.update(getattr(plan,'TECH',{}))
NOTE={}
NOTE.update(getattr(plan,'NOTE',{}))
props=[json.loads(l) for l in open(os.path.join(H,'properties.jsonl'))]
checks=[];na=[]
for p in props:
    i=p['id']
    if hasattr(plan,'p_'+i):
        checks.append(dict(property=i,quick_cmd='python3 check.py %s quick'%i,thorough_cmd='python3 check.py %s thorough'%i,evidence_file='evidence/%s.json'%i,
            technique='runtime monitoring: '+TECH[i],level=plan.LEVEL.get(i,'exploration'),
            level_note=NOTE.get(i,'Real library code, compiled from /repo for each run, driven by generated workloads; an oracle independent of the library judges every observation. Holds on everything explored, within the type lists, history lengths and configurations listed in DESIGN.md; trusts the compilers, the sanitizers and the harness bounded types.')))
    else: na.append(dict(property=i,reason='check not built yet'))
m=dict(version=1,setup_cmd='python3 tools/setup.py',checks=checks,not_applicable=na,notes='No hooks in /repo: everything is observed through the public API and the bounded types of the harness. See DESIGN.md.')
json.dump(m,open(os.path.join(H,'MANIFEST.json'),'w'),indent=1)
print(len(checks),len(na))
