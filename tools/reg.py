import json,sys
def reg(new):
    p='/verif/harness/checks.json'
    d=json.load(open(p)); d.update(new)
    out='{\n'
    ks=sorted(d)
    for i,k in enumerate(ks):
        v=d[k]; jobs=v['jobs']; rest={a:b for a,b in v.items() if a!='jobs'}
        out+=f' "{k}": '+json.dumps(rest)[:-1]+',\n  "jobs":[\n'+',\n'.join('   '+json.dumps(j) for j in jobs)+'\n  ]}'+(',' if i<len(ks)-1 else '')+'\n'
    out+='}\n'
    json.loads(out)
    open(p,'w').write(out)
def J(fn,params,bounds,reach=None,tier=None,secs=None,steps=5000000,hang=True,**kw):
    j={"fn":fn,"params":params,"steps":steps,"hang":hang,"bounds":bounds}
    if reach: j["reach"]=reach
    if tier: j["tier"]=tier
    if secs: j["secs"]=secs
    j.update(kw)
    return j
