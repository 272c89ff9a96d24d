#!/usr/bin/env python3
"""Makes DESIGN.md out of design.md, design2.md, checks.json, known_findings.json, timings.json and the metadata of the seeds."""
import json,os,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T=V+'/tools/'
def load(p,d=None):
    return json.load(open(p)) if os.path.exists(p) else d
checks=load(V+'/checks.json'); timings=load(T+'timings.json',{})
known=load(V+'/known_findings.json'); caught=load(T+'caught.json',{})
out=open(T+'design.md').read().rstrip()+'\n\n'
out+='Costs are of the quick tier on 8 cores, alone.\n'
for id,c in sorted(checks.items()):
    t=timings.get(id)
    out+='\n**%s**%s. Outside: %s.\n\n'%(id,' (%d paths, %d solver queries, %d s)'%(t['paths'],t['queries'],t['seconds']) if t else '',c['outside'])
    for h in c['harnesses']:
        q=h['quick']['params']; th=h['thorough']['params']
        par=' '.join('%s=%s'%(k,v if th.get(k,v)==v else '%s→%s'%(v,th[k])) for k,v in q.items())
        par+=''.join(' %s→%s'%('('+k+')',v) for k,v in th.items() if k not in q)
        out+='- `%s`%s: %s\n'%(h['fn'],' ('+par.strip()+')' if par.strip() else '',h['bounds'])
rest=open(T+'design2.md').read()
fixes=''.join('- **%s** `%s` %s\n'%(k['property'],k['commit'],k['what'].split(k['commit'],1)[1].strip()) for k in known if k['status']=='fixed')
kn=''.join('- **%s** (`%s`, "%s"): %s\n'%(k['property'],k['harness'],k['match'],k['what']) for k in known if k['status']=='known')
seeds='| bug | breaks | needs | caught |\n|---|---|---|---|\n'
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=load(d); i=os.path.basename(os.path.dirname(d))
    seeds+='| %s | %s | %s | %s |\n'%(i,m['what_it_breaks'],m['needs'],caught.get(i,'?'))
out+=rest.replace('FIXES',fixes).replace('KNOWN',kn).replace('SEEDS',seeds)
open(V+'/DESIGN.md','w').write(out)
