#!/bin/bash
# compiles common/connection.c together with demo.c in a scratch directory and runs the result
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -std=gnu11 -O1 -U_FORTIFY_SOURCE -g -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_XOPEN_SOURCE=700 -DDEBUG \
	-Iinclude -I"$here" common/connection.c "$here/demo.c" -o "$t/demo" \
	-Wl,--wrap=sendmsg,--wrap=recvmsg,--wrap=close || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
