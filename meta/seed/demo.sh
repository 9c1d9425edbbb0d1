#!/bin/bash
# run in the repository's root, after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
N=/usr/share/nginx/src/src M=$PWD/modules
I="-I$PWD/_build/nginx/objs -I$D"
for d in core event event/modules os/unix http http/modules http/v2 stream; do I="$I -I$N/$d"; done
for d in nginx-rtmp-module nginx-rtmp-module/http nginx-rtmp-module/hls nginx-rtmp-module/dash nginx-rtmp-module/mpegts nginx-rtmp-module/json nginx-client-module nginx-multiport-module nginx-toolkit-module nginx-ts-module/src; do I="$I -I$M/$d"; done
gcc -w -g -O0 -ffunction-sections -fsanitize=address $I "$D/demo.c" -o "$T/demo" -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -no-pie || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$T/demo"
