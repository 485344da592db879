#!/bin/bash
# Builds the demonstration beside this script with the sources of the working
# directory and runs it. Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
src=$PWD
t=$(mktemp -d /tmp/mjsdemo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
S="$src/src/common/cs_dbg.c $src/src/common/cs_file.c $src/src/common/cs_varint.c $src/src/common/mbuf.c
   $src/src/common/mg_str.c $src/src/common/str_util.c $src/src/frozen/frozen.c $src/src/ffi/ffi.c"
for f in "$src"/src/mjs_*.c; do S="$S $f"; done
CFLAGS="-w -O1 -g -std=gnu99 -DMJS_EXPOSE_PRIVATE -DCS_ENABLE_STDIO -DCS_MMAP -DMJS_MODULE_LINES -DMJS_MEMORY_STATS=1 -I$src -I$src/src -I$src/src/frozen"
[ -e "$here/cflags" ] && CFLAGS="$CFLAGS $(cat "$here/cflags")"
gcc $CFLAGS -o "$t/demo" "$here/demo.c" $S -ldl -lm -lpthread -rdynamic || exit 2
cp "$here"/*.js "$t"/ 2>/dev/null
cd "$t" || exit 2
export ASAN_OPTIONS=detect_leaks=0
MJS_SRC="$src" timeout 120 ./demo "$t"
