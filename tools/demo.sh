#!/bin/bash
# runs the demonstration tests beside this file, laid over the packages named in their first lines
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp)
{
  printf '{"Replace":{'
  sep=
  for f in "$d"/*_test.go; do
    p=$(sed -n '1s/.*overlay: *//p' "$f")
    printf '%s"%s/%s/zz_%s":"%s"' "$sep" "$PWD" "$p" "$(basename "$f")" "$f"
    sep=,
  done
  printf '}}'
} > "$o"
pk=$(for f in "$d"/*_test.go; do echo "./$(sed -n '1s/.*overlay: *//p' "$f")"; done | sort -u)
go test -vet=off -count=1 -timeout 200s -overlay "$o" -run 'TestDemo' $pk
