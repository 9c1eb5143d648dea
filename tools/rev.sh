#!/bin/bash
# rev.sh COMMIT PROP...: run checks with a fix commit of /repo reverted (in a scratch copy)
c=$1; shift
t=$(mktemp /tmp/rev.XXXXXX)
git -C /repo show -R "$c" -- '*.go' ':!*_test.go' > "$t"
"$(dirname "$0")/mut.sh" "$t" "$@"
rm -f "$t"
