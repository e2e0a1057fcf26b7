#!/bin/bash
# run.sh PROP TIER [args]: one check against /repo's working tree.
V=$(cd "$(dirname "$0")/.." && pwd)
export GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOTOOLCHAIN=local
export PATH=/opt/veriftools/go1.25.14/bin:$PATH
P=$1; T=$2; shift 2
exec $V/.build/gosym -prop $P -tier $T -verif $V -harness $V/harness -native $V/.build/vharness "$@"
