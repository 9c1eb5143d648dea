#!/bin/bash
# mut.sh PATCH PROP...: runs checks on a scratch copy of /repo with PATCH applied
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/. "$d/" && cd "$d" && { git apply "$p" || { echo "patch does not apply"; rm -rf "$d"; exit 3; }; }
. /tmp/env.sh
go build ./... || { echo "does not build"; rm -rf "$d"; exit 3; }
mkdir -p "$d.v/evidence"
for c in "$@"; do J8A_REPO=$d J8A_VERIF=$d.v ${J8ACHECK:-/verif/bin/j8acheck} $c 2>&1 | cut -c1-400; done
rm -rf "$d" "$d.v"
