#!/bin/bash
# builds demo.c against the sources of the tree it is run in and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
S=$PWD/preload-src/src
inc=""; for d in algorithm handling monitoring config daemon utils; do inc="$inc -I$S/$d"; done
src=$(ls $S/algorithm/*.c $S/handling/*.c $S/monitoring/*.c $S/config/*.c $S/utils/*.c)
gcc -std=gnu11 -g -O1 -w -fsanitize=address,undefined -fno-sanitize=float-cast-overflow,alignment -fno-sanitize-recover=undefined \
  -D_GNU_SOURCE -DVERSION='"0.6.4"' -DPACKAGE='"preload"' -DPACKAGE_STRING='"preload 0.6.4"' -DPACKAGE_NAME='"preload"' -DPACKAGE_BUGREPORT='"none"' \
  -DSYSCONFDIR='"/etc"' -DPKGLOCALSTATEDIR='"/var/lib/preload"' -DLOGDIR='"/var/log"' -Dmain=program_main \
  $(pkg-config --cflags glib-2.0) $inc -c $S/daemon/preload.c -o $t/p.o || exit 2
gcc -std=gnu11 -g -O1 -w -fsanitize=address,undefined -fno-sanitize=float-cast-overflow,alignment -fno-sanitize-recover=undefined \
  -D_GNU_SOURCE -DVERSION='"0.6.4"' -DPACKAGE='"preload"' -DPACKAGE_STRING='"preload 0.6.4"' -DPACKAGE_NAME='"preload"' -DPACKAGE_BUGREPORT='"none"' \
  -DSYSCONFDIR='"/etc"' -DPKGLOCALSTATEDIR='"/var/lib/preload"' -DLOGDIR='"/var/log"' \
  $(pkg-config --cflags glib-2.0) $inc $here/demo.c $t/p.o $src -o $t/demo $(pkg-config --libs glib-2.0) -lm $(cat $here/ldflags 2>/dev/null) || exit 2
cd $t && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
