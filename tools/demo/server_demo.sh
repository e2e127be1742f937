#!/bin/bash
# compiles the daemon's sources together with demo.c (see harness.h) in a scratch directory and runs the result
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
src="seatd/client.c seatd/seat.c seatd/server.c seatd/poller.c common/connection.c common/linked_list.c common/log.c common/terminal.c common/evdev.c common/hidraw.c common/drm.c common/wscons.c"
gcc -std=gnu11 -O1 -U_FORTIFY_SOURCE -g -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -DHIDIOCREVOKE=0x4004480d -D_XOPEN_SOURCE=700 -DDEBUG -DREL_SRC_DIR='""' \
	-Iinclude -I"$here" $src "$here/demo.c" -o "$t/demo" \
	-Wl,--wrap=open,--wrap=open64,--wrap=close,--wrap=realpath,--wrap=ioctl,--wrap=poll,--wrap=calloc,--wrap=strdup || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
