#!/bin/bash
# build.sh OUTDIR [variant...]   builds the simulator and the library under test (from /repo's working tree) into OUTDIR
set -e
OUT=$1; shift
VARIANTS=${*:-"mon asan"}
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
INC="-I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"
NL=${NLIBS:-16}
mkdir -p "$OUT"
( cd "$REPO" && bash ./minclude.sh latency_bandwidth/ext_mpi_bm.txt ) > "$OUT/latency_bandwidth.tmp" 2>/dev/null || cp "$REPO/latency_bandwidth.tmp" "$OUT/" 
[ -s "$OUT/latency_bandwidth.tmp" ] || { ls "$REPO"; exit 1; }
cp "$REPO/latency_bandwidth/ext_mpi_nst.txt" "$OUT/node_size_threshold.tmp" 2>/dev/null || true
W="malloc calloc realloc free strdup getenv exit abort printf puts putchar shmget shmat shmdt shmctl ext_mpi_generate_allreduce ext_mpi_generate_allreduce_recursive ext_mpi_generate_rank_permutation_forward"
for v in $VARIANTS; do
  case $v in
    mon) SAN="-fsanitize=thread --param tsan-distinguish-volatile=1 -fsanitize-coverage=trace-pc"; ESAN=""; LSAN=""; WW="$W memcpy memmove memset";;
    asan) SAN="-fsanitize=address,undefined -fno-sanitize=alignment,nonnull-attribute,signed-integer-overflow -fno-sanitize-recover=undefined -fsanitize-coverage=trace-pc"; ESAN="-fsanitize=address"; LSAN="-fsanitize=address,undefined"; WW="$W";;
    *) echo "unknown variant $v"; exit 1;;
  esac
  D=$OUT/$v; mkdir -p "$D/o"
  WRAP=""; for w in $WW; do WRAP="$WRAP -Wl,--wrap=$w"; done
  CFL="-g1 -O1 -fPIC -w -fno-builtin -U_FORTIFY_SOURCE -fno-omit-frame-pointer -I$OUT -I$REPO -I$REPO/include/core -I$REPO/include/mpi $INC -DDEBUG -DM_MAP ${EXTRA_CFLAGS}"
  {
    for f in "$REPO"/src/noopt/*.c "$REPO"/src/mpi/*.c "$REPO"/src/core/*.c "$REPO"/src/fortran/*.c; do
      o=$D/o/$(basename $(dirname $f))_$(basename $f .c).o
      case $f in
        */noopt/*) [ $v = mon ] && S2="-O2" || S2="-O2 -fsanitize=address" ;; # a table of constants, expensive to build with instrumentation
        *) S2=$SAN ;;
      esac
      echo "gcc $CFL $S2 -c $f -o $o"
    done
    for f in sim mpi work other main; do [ -f "$HERE/$f.cpp" ] && echo "g++ -std=c++17 -DOMPI_SKIP_MPICXX -g1 -O2 -w $ESAN $INC -c $HERE/$f.cpp -o $D/$f.eo"; done
    echo "gcc -w -c $HERE/syms.c -o $D/syms.eo"
  } | xargs -P "${JOBS:-8}" -I{} sh -c '{} || exit 255'
  gcc -shared -o "$D/lib.so" "$D"/o/*.o -Wl,-Bsymbolic $WRAP -lm -Wl,-z,lazy
  g++ ${SAN:+$LSAN} -rdynamic -no-pie -o "$D/sim" "$D"/*.eo -ldl
  for i in $(seq 0 $((NL-1))); do cp "$D/lib.so" "$D/lib_$i.so"; done
done
