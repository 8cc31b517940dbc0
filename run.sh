#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]   — decides one property for /repo
#        run.sh --build                     — only builds the analyzer
cd "$(dirname "$0")" || exit 1
here=$PWD
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && { PATH=$d:$PATH; break; }
done
export PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
export HOME=${HOME:-/root}
build() {
  mkdir -p bin
  local sum
  sum=$(cat analyzer/*.go analyzer/go.mod | sha256sum | cut -c1-16)
  [ -x "bin/an-$sum" ] || {
    (cd analyzer && GOFLAGS=-mod=mod go build -o "$here/bin/.an-$$" .) >bin/build.log 2>&1 || { cat bin/build.log; return 1; }
    mv "bin/.an-$$" "bin/an-$sum"
  }
  bin="$here/bin/an-$sum"
}
if [ "$1" = --build ]; then build || exit 1; exit 0; fi
id=$1 tier=${2:-quick}
if ! build; then
  mkdir -p evidence
  echo "VIOLATION property=$id replay=bin/build.log"
  echo "the analyzer does not build"
  exit 1
fi
timeout 850 "$bin" -repo /repo -prop "$id" -tier "$tier"
rc=$?
case $rc in
0|1) exit $rc ;;
*) # ended by the time limit or for lack of memory: nothing was decided
  mkdir -p evidence
  echo "UNDECIDED property=$id the analysis ended with status $rc"
  [ -s "evidence/$id.json" ] || exit 1
  exit 0 ;;
esac
