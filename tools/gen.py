#!/usr/bin/env python3
# Regenerates properties.jsonl and MANIFEST.json from tools/props_data.py and tools/checks_data.py.
import json,os,sys
D=os.path.dirname(os.path.abspath(__file__)); R=os.path.dirname(D); sys.path.insert(0,D)
import props_data
try: import checks_data
except ImportError: checks_data=None
with open(R+'/properties.jsonl','w') as f:
    for d in props_data.P:
        assert len(d['title'])<=80,d['id']
        f.write(json.dumps(d)+'\n')
checks=[];na=[]
for d in props_data.P:
    i=d['id']
    if checks_data and i in checks_data.CHECKS:
        c=checks_data.CHECKS[i]
        checks.append({"property":i,"quick_cmd":f"python3 check.py {i}","thorough_cmd":f"python3 check.py {i} --tier thorough","evidence_file":f"evidence/{i}.json",
          "technique":"bounded symbolic execution of the compiled LLVM IR, z3 deciding every branch, memory access and assertion",
          "level":"model_checking","level_note":c["note"]})
    else: na.append({"property":i,"reason":(checks_data.NA.get(i) if checks_data else None) or "check not built yet"})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
   "notes":"All checks: python3 check.py <id>; see DESIGN.md. Defects found are in KNOWN_FINDINGS.md."}
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1); open(R+'/MANIFEST.json','a').write('\n')
# section 8 of DESIGN.md
d=open(R+'/DESIGN.md').read(); mark='<!-- BOUNDS -->'
if mark in d and checks_data:
    out=[]
    for p in props_data.P:
        c=checks_data.CHECKS.get(p['id'])
        if not c: continue
        out.append('\n**%s %s.** %s\n'%(p['id'],p['title'],c['note']))
        for j in c['jobs']: out.append('- `%s`%s%s: %s'%(j['name'],' (T)' if j['tier']=='thorough' else '','' if j['req'] else ' (b)',j['bound']))
    open(R+'/DESIGN.md','w').write(d[:d.index(mark)]+mark+'\n'+'\n'.join(out)+'\n')
