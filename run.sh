#!/bin/bash
# run.sh <property>: builds the analyser if needed and runs one property's check
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GSA_VERIF="$PWD"
if [ ! -x bin/gsa ] || [ -n "$(find checker \( -name '*.go' -o -name '*.txt' \) -newer bin/gsa -print -quit)" ]; then
  mkdir -p bin
  (cd checker && go build -mod=vendor -o "../bin/gsa.$$" . && mv "../bin/gsa.$$" ../bin/gsa) || exit 2
fi
[ "$1" = build ] && exit 0
exec ./bin/gsa check "$1"
