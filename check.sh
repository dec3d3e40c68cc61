#!/bin/bash
# usage: check.sh <property id>  -- decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.26.10/bin ] && export PATH=/opt/veriftools/go1.26.10/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
if [ ! -x bin/verifchecker ] || [ -n "$(find checker -name '*.go' -newer bin/verifchecker -print -quit)" ]; then
  bash build.sh >&2 || { echo "VIOLATION property=$1 replay=$PWD/build.sh"; exit 1; }
fi
exec bin/verifchecker -repo /repo -prop "$1" -out "$PWD/evidence" -known "$PWD/known-findings.txt"
