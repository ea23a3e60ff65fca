#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/pwdemo.XXXXXX)
trap 'rm -r "$W"' EXIT
for f in "$D"/*.wat; do [ -e "$f" ] && { /usr/bin/wat2wasm --enable-all "$f" -o "$W/$(basename "$f" .wat).wasm" || exit 2; }; done
gcc -w -O1 -I/repo/include "$D/demo.c" -o "$W/demo" /repo/_build/cmake/libpwart.a -lm -lpthread -ldl || exit 2
cd "$W"
export GLIBC_TUNABLES=glibc.malloc.tcache_count=0
timeout 60 ./demo >demo.log 2>&1
r=$?
[ $r = 0 ] || { tail -3 demo.log; exit 1; }
exit 0
