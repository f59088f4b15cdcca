#!/bin/bash
# build.sh OUTDIR VARIANT   -- compiles the sources in $REPO (default /repo) into OUTDIR/libmidori.a
# VARIANT: asan | msan (clang) | tsan | plain | cov | oom (asan, the engine's allocations go through vf_malloc & co)
set -e
OUT=$1; VARIANT=${2:-asan}
REPO=${REPO:-/repo}
export LANG=C.UTF-8 LC_ALL=C.UTF-8
CC=${CC:-gcc}
BASE="-std=gnu11 -g -fpic -masm=intel -w -fno-omit-frame-pointer -I$REPO/include -I$OUT/gen"
case $VARIANT in
 asan|oom) F="-O1 -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all";;
 tsan)  F="-O1 -fsanitize=thread";;
 msan)  CC=clang; F="-O1 -fsanitize=memory -fsanitize-memory-track-origins -fno-sanitize-recover=all -fno-optimize-sibling-calls";;
 plain) F="-O2";;
 cov)   F="-O1 --coverage";;
 *) echo "bad variant" >&2; exit 2;;
esac
mkdir -p $OUT/gen $OUT/obj
find $OUT/obj -name '*.o' -delete
for l in $REPO/src/parser/*.l; do b=$(basename $l .l); flex --header-file=$OUT/gen/$b.yy.h -o $OUT/gen/$b.yy.c $l; done
for y in $REPO/src/parser/*.y; do b=$(basename $y .y); bison -d -o $OUT/gen/$b.tab.c $y 2>/dev/null; done
if [ $VARIANT = oom ]; then
  sed -i 's/return malloc(size);/return vf_scan_malloc(size);/; s/return realloc(ptr, size);/return vf_scan_realloc(ptr, size);/' $OUT/gen/*.yy.c
  sed -i '1i #include <stddef.h>\nvoid *vf_raw_malloc(size_t);void *vf_scan_malloc(size_t);void *vf_scan_realloc(void*,size_t);' $OUT/gen/*.yy.c $OUT/gen/*.tab.c
  GENF="-DYYMALLOC=vf_raw_malloc -DYYFREE=free"
fi
echo "$BASE $F" > $OUT/cflags
( for c in $REPO/src/*/*.c; do
    d=$(basename $(dirname $c)); [ $d = main ] && continue
    echo "$c $OUT/obj/${d}_$(basename $c .c).o"
  done
  for c in $OUT/gen/*.c; do echo "$c $OUT/obj/gen_$(basename $c .c).o"; done
) | xargs -P 8 -L 1 sh -c "$CC $BASE $F $GENF -c \$0 -o \$1 || exit 255"
if [ $VARIANT = oom ]; then
  # allocations of the scanner and parser skeletons are left alone (src/oomdrv.c)
  R="--redefine-sym malloc=vf_malloc --redefine-sym calloc=vf_calloc --redefine-sym realloc=vf_realloc --redefine-sym strdup=vf_strdup --redefine-sym strndup=vf_strndup"
  for o in $OUT/obj/*.o; do objcopy $R $o; done
fi
rm -f $OUT/libmidori.a
ar rcs $OUT/libmidori.a $OUT/obj/*.o
