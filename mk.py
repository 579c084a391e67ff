#!/usr/bin/env python3
# regenerates MANIFEST.json from properties.jsonl, harness/checks.json and na.json
import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
checks=json.load(open('/verif/harness/checks.json'))
na=json.load(open('/verif/na.json'))
T="bounded symbolic execution of the real Go SSA, assertions decided by SMT (z3)"
out={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in checks and checks[i].get('jobs'):
        out['checks'].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "technique":checks[i].get('technique',T),"level":checks[i]['level'],"level_note":checks[i]['note']})
    else:
        out['not_applicable'].append({"property":i,"reason":na.get(i,"no check built yet")})
out["hooks"]={"guard":"verif","enable":"no hook is compiled into /repo; harnesses are added by a build overlay","source_commits":[]}
json.dump(out,open('/verif/MANIFEST.json','w'),indent=1)
print(len(out['checks']),'checks',len(out['not_applicable']),'n/a')
