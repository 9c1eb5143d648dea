#!/bin/bash
# run.sh setup | run.sh PROPERTY: builds the analyser (incrementally, offline) and runs the check of a property on /repo.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOPATH=/root/go GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
mkdir -p bin evidence
(cd checker && go build -o ../bin/j8acheck.$$ . && mv -f ../bin/j8acheck.$$ ../bin/j8acheck) || exit 2
[ "$1" = setup ] && exit 0
exec bin/j8acheck "$1"
