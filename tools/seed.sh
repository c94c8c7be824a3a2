#!/bin/bash
# seed.sh ID PROP NEEDS BREAKS FILE OLD NEW [FILE OLD NEW...]
# Makes /verif/seeded/ID from an edit of /repo (its *_test.go demonstration files are already there),
# and confirms in a scratch copy: builds, passes the tests, demo passes without and fails with the change.
# Then runs the property's check on /repo with the change applied.
set -u
id=$1 prop=$2 needs=$3 breaks=$4; shift 4
s=/verif/seeded/$id; mkdir -p $s
w=$(mktemp -d /tmp/seedwt.XXXX); cp -a /repo/. $w/; cd $w; git checkout -q -- .
while [ $# -gt 0 ]; do
python3 - "$1" "$2" "$3" <<'P' || { echo EDIT FAILED; exit 1; }
import sys
p,a,b=sys.argv[1:]
s=open(p).read()
assert s.count(a)==1,("matches",s.count(a),a)
open(p,'w').write(s.replace(a,b,1))
P
shift 3; done
git diff > $s/patch.diff
cp /verif/tools/demo.sh $s/demo.sh; chmod +x $s/demo.sh
python3 - "$id" "$prop" "$needs" "$breaks" > $s/meta.json <<'P'
import sys,json
i,p,n,b=sys.argv[1:]
print(json.dumps({"property":p,"needs":n,"what_it_breaks":b},indent=1))
P
. /opt/vp/gen/env.sh >/dev/null 2>&1; cd $w
go build ./... || { echo BUILD FAILED; exit 1; }
bash $s/demo.sh >/tmp/seed-$id.mut 2>&1; m=$?
git checkout -q -- .
bash $s/demo.sh >/tmp/seed-$id.base 2>&1; b=$?
echo "$id demo: unchanged=$b changed=$m"
[ $b = 0 ] || tail -20 /tmp/seed-$id.base
[ $m != 0 ] || tail -5 /tmp/seed-$id.mut
cd /verif; case $w in /tmp/seedwt.*) rm -rf "$w";; esac
git -C /repo apply $s/patch.diff
if [ -z "${NOTEST:-}" ]; then bash /opt/vp/test.sh /tmp/seed-$id.json >/dev/null 2>&1
python3 - /tmp/seed-$id.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('stable','passed','pass'):
        if isinstance(x,dict) and k in x: return set(x[k])
    if isinstance(x,dict):
        return {k for k,v in x.items() if v in ('pass','passed',True)}
    return set(x)
miss=passed(b)-passed(r)
print("tests missing:",sorted(miss)[:5])
P
fi
[ -n "${NOCHECK:-}" ] || bash /verif/check.sh $prop quick 2>&1 | cut -c1-220 | tail -5
git -C /repo checkout -q -- .
git -C /repo status --short
