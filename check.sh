#!/bin/bash
# check.sh PROPERTY TIER: discharge the property's obligations on /repo's current source
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
bash ./build-govc.sh || { echo "govc does not build"; exit 1; }
exec ./bin/govc -prop "$1" -tier "${2:-quick}"
