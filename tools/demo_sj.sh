#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/pwdemo.XXXXXX)
trap 'rm -r "$W"' EXIT
gcc -w -O1 -DSLJIT_CONFIG_AUTO=1 -DSLJIT_DEBUG=0 -DSLJIT_VERBOSE=0 -I/repo/sljit/sljit_src "$D/demo.c" /repo/sljit/sljit_src/sljitLir.c -o "$W/demo" -lpthread || exit 2
cd "$W"
timeout 60 ./demo >demo.log 2>&1
r=$?
[ $r = 0 ] || { tail -3 demo.log; exit 1; }
exit 0
