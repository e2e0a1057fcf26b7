#!/bin/bash
# Builds the engine and the native harness into /verif/.build.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOTOOLCHAIN=local
mkdir -p $V/.build
if [ "$1" = race ]; then
  export PATH=/opt/veriftools/go1.25.14/bin:$PATH
  rm -f $V/.build/vharness-race
  cd $V/harness && exec go build -race -o $V/.build/vharness-race .
fi
if [ "$1" != native ]; then
  (cd $V/engine && go build -o $V/.build/gosym .)
fi
python3 $V/tools/genreg.py
export PATH=/opt/veriftools/go1.25.14/bin:$PATH
(cd $V/harness && go build -o $V/.build/vharness .)
