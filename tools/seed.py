#!/usr/bin/env python3
"""plant a bug: edits /repo, records patch/demo/meta in /verif/seeded, confirms, runs the check, restores /repo"""
import os,subprocess,json,sys,time
R=os.environ.get('SEED_REPO','/repo')
def sh(c,cwd=R,t=900):
    p=subprocess.run(['bash','-c',c],cwd=cwd,capture_output=True,text=True,timeout=t); return p.returncode,p.stdout+p.stderr
DEMO='''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
tmp=$(mktemp -d); trap 'find "$tmp" -delete' EXIT
printf '{"Replace":{"%s/%s/main.go":"%s/main.go.txt"}}' "$PWD" "DIR" "$here" > "$tmp/o.json"
timeout 200 go run -overlay "$tmp/o.json" "./DIR"
'''
def restore(): sh('git checkout -- .')
def seed(id,prop,edits,demo,needs,breaks,dir='zzdemo',check=True):
    assert sh('git status --porcelain')[1].strip()=='',"repo dirty"
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    try:
        for f,a,b in edits:
            s=open(f'{R}/{f}').read(); assert s.count(a)==1,(id,f,s.count(a),a); open(f'{R}/{f}','w').write(s.replace(a,b))
        diff=sh('git diff')[1]; open(d+'/patch.diff','w').write(diff)
        rm=[l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        # lines removed must be original ones
        for f,_,_ in edits:
            base=sh(f'git show e07ec26:{f}')[1].splitlines()
        orig=set(base)
        for l in rm:
            ok=any(l in sh(f'git show e07ec26:{f}')[1].splitlines() for f,_,_ in edits)
            if not ok: print(id,'WARNING line not original:',l)
        open(d+'/main.go.txt','w').write(demo)
        open(d+'/demo.sh','w').write(DEMO.replace('DIR',dir)); os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
        rc,o=sh(f'bash /verif/t.sh {R}'); print(id,'tests:',rc,o.strip()[-300:])
        rc,o=sh(f'bash {d}/demo.sh'); print(id,'demo patched (want !=0):',rc,o[-200:].strip())
        if check:
            t=time.time(); rc,o=sh(f'bash /verif/check.sh {prop} quick -repo {R}'); 
            print(id,'check:',rc,f'{time.time()-t:.0f}s',' | '.join([l for l in o.splitlines() if 'VIOLATION' in l])[:300] or o[-600:])
    finally: restore()
    rc,o=sh(f'bash {d}/demo.sh'); print(id,'demo clean (want 0):',rc,o[-200:].strip())
    sys.stdout.flush()
