#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/pwdemo.XXXXXX)
trap 'rm -r "$W"' EXIT
/usr/bin/wat2wasm --enable-all "$D/m.wat" -o "$W/m.wasm" || exit 2
gcc -w -O1 -I/repo/include "$D/drv.c" -o "$W/drv" /repo/_build/cmake/libpwart.a -lm -lpthread -ldl || exit 2
cd "$W"
