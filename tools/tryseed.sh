#!/bin/bash
# tryseed.sh ID [--check]: confirms seeded/ID in a scratch copy; with --check also runs this property's check on /repo with the patch.
ID=$1; S=/verif/seeded/$ID; R=/tmp/seedrepo
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=1 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
if [ ! -d $R ]; then git clone -q /repo $R; fi
git -C $R fetch -q && git -C $R checkout -q -f origin/HEAD && git -C $R clean -qfdx
if [ "$2" != --checkonly ]; then
cd $R
bash $S/demo.sh >/tmp/demo.out 2>&1 || { echo "$ID: demo FAILS on clean tree"; tail -20 /tmp/demo.out; exit 1; }
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
go build -tags sqlite_fts5 ./... || { echo "$ID: no build"; exit 1; }
sed "s#^cd /repo#cd $R#" /opt/vp/test.sh > /tmp/seedtest.sh; bash /tmp/seedtest.sh /tmp/seedtest.json >/dev/null 2>&1
python3 - <<P || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtest.json'))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x: return passed(x[k])
        return set(k for k,v in x.items() if v in (True,'pass','passed'))
    return set(map(str,x))
m=passed(b)-passed(r)
if m: print("$ID: FAILS existing tests:",sorted(m)[:5]); sys.exit(1)
P
bash $S/demo.sh >/tmp/demo.out 2>&1 && { echo "$ID: demo passes with the patch"; exit 1; }
tail -4 /tmp/demo.out | cut -c1-200
git checkout -q -f .
echo "$ID: seed ok"
fi
if [ -n "$2" ]; then
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C $R checkout -q -f . && git -C $R apply $S/patch.diff || exit 1
cd /verif; GOSYMEX_REPO=$R ./check $P -tier quick > /tmp/seedcheck.out 2>&1; rc=$?
git -C $R checkout -q -f .
grep -E 'VIOLATION|VACUOUS|KNOWN' /tmp/seedcheck.out | head -3
[ $rc = 1 ] && echo "$ID: CAUGHT by $P" || { echo "$ID: missed by $P (rc $rc)"; tail -5 /tmp/seedcheck.out; }
fi
