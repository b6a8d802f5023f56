#!/bin/bash
# builds demo.cpp against the program's object files and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$T"' EXIT
B=/repo/_build
INC="-I$B -I/usr/include/libxml2 -I/repo/lib/par2 -I/repo/lib/yencode"
for d in connect extension feed frontend main nntp nserv postprocess queue remote util; do INC="$INC -I/repo/daemon/$d"; done
g++ -std=c++14 -w -g -O1 -DHAVE_CONFIG_H $INC "$D/demo.cpp" $(find $B/daemon $B/lib $B/tests $B/code_revision.o -name '*.o') \
	-Wl,--allow-multiple-definition -lxml2 -lncurses -ltinfo -lgnutls -lnettle -lz -lpthread -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
