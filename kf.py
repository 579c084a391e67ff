#!/usr/bin/env python3
# regenerates the "fixed" list of known_findings.json from the fix: commits of /repo (property ids by subject)
import json,subprocess
P={"control characters in PO strings":"C01","string ending with a backslash":"C01","plural forms when the first":"C02","unknown PO header fields":"C09","escape PO header":"C02","independent of the spacing":"C04","continued PO plural":"C04","several blanks":"C04","additional blank lines":"C04","report read errors":"C06","total order":"C09","copying the messages":"C23","keep the domain":"C20","truncated MO":"C08","obsolete PO message":"C05"}
try: P.update(json.load(open('/verif/kf_map.json')))
except FileNotFoundError: pass
k=json.load(open('/verif/known_findings.json'))
k['fixed']=[]
for l in reversed(subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()):
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    m=[v for t,v in P.items() if t in s]
    assert len(m)==1,(s,m)
    k['fixed'].append(f"fixed: property={m[0]} {h} {s[5:]}")
json.dump(k,open('/verif/known_findings.json','w'),indent=1)
