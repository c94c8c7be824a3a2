#!/bin/bash
# builds the verifier into the git-ignored bin/
cd "$(dirname "$0")/govc" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p ../bin
if [ ! -x ../bin/govc ] || [ -n "$(find . -name '*.go' -newer ../bin/govc -print -quit)" ]; then
  go build -o ../bin/govc.$$ . && mv ../bin/govc.$$ ../bin/govc
fi
