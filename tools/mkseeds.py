#!/usr/bin/env python3
"""Regenerates seeded/*/patch.diff, meta.json and demo.sh from tools/seeds.py against /repo's HEAD (in /tmp/seedrepo)."""
import os,subprocess,sys,json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R='/tmp/seedrepo'
sys.path.insert(0,V+'/tools')
from seeds import SEEDS
if not os.path.isdir(R): subprocess.check_call(['git','clone','-q','/repo',R])
subprocess.check_call('git fetch -q && git checkout -q -f origin/HEAD && git clean -qfdx',shell=True,cwd=R)
DEMO='''#!/bin/bash
# Runs demo_test.go inside pkg/%s: passes on the unchanged tree, fails with the change.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=1 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export TMPDIR=$T
printf '{"Replace":{"%%s":"%%s"}}' "$R/pkg/%s/zz_demo_test.go" "$D/demo_test.go" > "$T/overlay.json"
go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 120s -tags sqlite_fts5%s -run '^TestZZDemo$' ./pkg/%s
'''
only=sys.argv[1:]
for s in SEEDS:
    if only and s['id'] not in only: continue
    d=V+'/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    for f,a,b in s['edits']:
        p=R+'/'+f; t=open(p).read()
        if t.count(a)!=1: print(s['id'],': edit matches',t.count(a),'times in',f,repr(a[:60])); break
        open(p,'w').write(t.replace(a,b))
    else:
        subprocess.check_call(['gofmt','-l','-w']+sorted({R+'/'+e[0] for e in s['edits']}),stdout=subprocess.DEVNULL,env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH']))
        diff=subprocess.check_output(['git','diff'],cwd=R).decode()
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.sh','w').write(DEMO%(s['pkg'],s['pkg'],s.get('flags',''),s['pkg'])); os.chmod(d+'/demo.sh',0o755)
        if s.get('demo'): open(d+'/demo_test.go','w').write(s['demo'])
        json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
    subprocess.check_call('git checkout -q -f .',shell=True,cwd=R)
