#!/bin/bash
# mut.sh PROP FILE OLD NEW: what the check says about a change, tried in a scratch copy of /repo
R=$(mktemp -d /tmp/mutXXXXXX)
trap 'rm -rf "$R"' EXIT
cp -a /repo "$R/repo"; cd "$R/repo" || exit 1
git checkout -q -- .
python3 - "$2" "$3" "$4" <<'P'
import sys
p,a,b=sys.argv[1:]
s=open(p).read()
assert a in s,("no match",a)
open(p,'w').write(s.replace(a,b,1))
P
[ $? = 0 ] || exit 1
go build ./... || exit 1
/verif/bin/govc -repo "$R/repo" -prop $1 2>&1 | cut -c1-240 | tail -${5:-6}
