#!/usr/bin/env python3
# fills in the generated parts of DESIGN.md from tools/DESIGN.in.md
import json,glob,os
V='/verif/'
s=open(V+'tools/DESIGN.in.md').read()
checks=json.load(open(V+'harness/checks.json'))
k=json.load(open(V+'known_findings.json'))
fx={}
for l in k['fixed']:
    w=l.split(' ',3); fx.setdefault(w[1].split('=')[1],[]).append((w[2],w[3]))
s=s.replace('@@FIXES@@','\n'.join('* **%s**: %s'%(p,'; '.join('%s (`%s`)'%(t,c) for c,t in fx[p])) for p in sorted(fx)))
s=s.replace('@@NFIX@@',str(len(k['fixed'])))
r=['| change | property / caught by | needs | breaks |','|---|---|---|---|']
for m in sorted(glob.glob(V+'seeded/*/meta.json')):
    d=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    r.append('| `%s` | %s%s | %s | %s |'%(i,d['property'],d.get('note',''),d['needs'],d['what_it_breaks']))
s=s.replace('@@SEEDS@@','\n'.join(r))
j=[]
for p in sorted(checks):
    c=checks[p]
    j+=['**%s** — oracle: %s. %s'%(p,c.get('oracle','').rstrip('.'),c['note']),'','| harness | parameters | bounds | tier |','|---|---|---|---|']
    for x in c['jobs']:
        ex=[]
        if x.get('maps'): ex.append('all map orders')
        if x.get('race'): ex.append('race mode')
        j.append('| `%s` | %s | %s%s | %s |'%(x['fn'],' '.join('%s=%s'%a for a in x.get('params',{}).items()),x.get('bounds',''),' ('+', '.join(ex)+')' if ex else '',x.get('tier') or 'quick'))
    j.append('')
s=s.replace('@@JOBS@@','\n'.join(j))
assert '@@' not in s,s[s.index('@@'):][:20]
open(V+'DESIGN.md','w').write(s)
