#!/usr/bin/env python3
"""Collects tools/timings.json from /verif/evidence after a run of every check."""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t={}
for f in sorted(glob.glob(V+'/evidence/C*.json')):
    e=json.load(open(f)); c=e['coverage']
    t[os.path.basename(f)[:-5]]={'paths':c['paths_completed'],'queries':c['solver_queries'],'seconds':round(e['wall_s'])}
json.dump(t,open(V+'/tools/timings.json','w'),indent=0,sort_keys=True)
