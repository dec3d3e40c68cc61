#!/bin/bash
# Builds the checker, offline.
set -e
cd "$(dirname "$0")/checker"
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.26.10/bin ] && export PATH=/opt/veriftools/go1.26.10/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
mkdir -p ../bin
go build -o ../bin/verifchecker .
