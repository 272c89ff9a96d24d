#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg=json.load(open(V+'/checks.json'))
props=[json.loads(l) for l in open(V+'/properties.jsonl') if l.strip()]
na={}
p=V+'/tools/not_applicable.json'
if os.path.exists(p): na=json.load(open(p))
checks=[];nas=[]
for q in props:
    i=q['id']
    if i in cfg:
        c=cfg[i]
        checks.append({"property":i,"quick_cmd":"./check %s --tier quick"%i,"thorough_cmd":"./check %s --tier thorough"%i,
          "technique":"symbolic execution of the Go SSA of /repo with z3 deciding every branch and assertion; counterexamples replayed natively",
          "level":"model_checking",
          "level_note":"Every path within the bounds is executed symbolically and each assertion is decided by the solver for all values. Bounds: "+"; ".join(h["bounds"] for h in c["harnesses"])+". Outside: "+(c.get("outside") or "-")+". Trusted: the symbolic engine and its library models (sampled paths are re-run natively each time)."+(" Assumes: "+"; ".join(c["assumptions"])+"." if c.get("assumptions") else "")})
    else:
        nas.append({"property":i,"reason":na.get(i,"not claimed yet: no check has been built for it so far")})
m={"version":1,"setup_cmd":"./check build","hooks":{"guard":"none","enable":"no hooks: harnesses and models enter through go build overlays","source_commits":[]},"checks":checks,"not_applicable":nas}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
open(V+'/MANIFEST.json','a').write('\n')
