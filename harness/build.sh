#!/bin/bash
# build.sh OUTDIR [plain|asan|wrap|wasan|conc|casan]   -- compiles /repo's *current* working tree plus our drivers, out of tree.
# Never writes inside /repo.
set -e
OUT="$1"; MODE="${2:-plain}"; REPO="${REPO:-/repo}"; HERE="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$OUT/gen" "$OUT/obj"
export LANG=C.UTF-8 LC_ALL=C.UTF-8
unset CFLAGS LDFLAGS MAKEFLAGS
CF="-std=gnu11 -fpic -masm=intel -w -pthread -I$REPO/include -I$OUT/gen -fcommon -g"
LD=""; SHIM=""
# wrap*: the library's allocations go through wrap_shim.c; conc*: its threads run under the scheduler of sched_shim.c
case "$MODE" in
  wrap|wasan) SHIM="$HERE/wrap_shim.c"; for f in malloc calloc realloc reallocarray free strdup strndup aligned_alloc posix_memalign regcomp regexec regfree; do LD="$LD -Wl,--wrap=$f"; done ;;
  conc|casan) SHIM="$HERE/sched_shim.c"; for f in pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_spin_lock pthread_spin_unlock mtx_lock mtx_unlock pthread_cond_wait pthread_cond_signal pthread_cond_broadcast sem_wait sem_post pthread_once malloc calloc realloc free; do LD="$LD -Wl,--wrap=$f"; done ;;
esac
COV=""
ACC=""
case "$MODE" in
  conc) COV="-fsanitize-coverage=trace-pc"; ACC="-fsanitize=thread" ;;	# only the calls; the functions are in the shim
  casan) COV="-fsanitize-coverage=trace-pc"; ACC="--param asan-instrumentation-with-call-threshold=0"
    for k in load store; do for n in 1 2 4 8 16 N; do LD="$LD -Wl,--wrap=__asan_$k$n"; done; done ;;
esac
case "$MODE" in
  asan|wasan|casan) CF="$CF -O1 -fno-omit-frame-pointer -fsanitize=address" ;;
  # the flags of scripts/config.mk
  *)    CF="$CF -O2 -D_FORTIFY_SOURCE=3 -fsanitize=bounds -fsanitize-undefined-trap-on-error -fstack-protector-strong" ;;
esac
for l in "$REPO"/src/parser/*.l; do b=$(basename "$l" .l); flex --header-file="$OUT/gen/$b.yy.h" -o "$OUT/gen/$b.yy.c" "$l"; done
for y in "$REPO"/src/parser/*.y; do b=$(basename "$y" .y); bison -d -o "$OUT/gen/$b.tab.c" "$y" 2>/dev/null; done
# every C file of the library except the program entry point
find "$REPO/src" -name '*.c' ! -path "$REPO/src/main/*" > "$OUT/srcs"
ls "$OUT"/gen/*.c >> "$OUT/srcs"
ls "$HERE"/*.c | grep -v '_shim\.c$' >> "$OUT/srcs"
[ -z "$SHIM" ] || echo "$SHIM" >> "$OUT/srcs"
# conc: threads are stopped in the engine and the storage only, casan: anywhere
NOPARSE=""; [ "$MODE" = conc ] && NOPARSE=1
export OUT CF COV ACC HERE NOPARSE
cc1() { o="$OUT/obj/$(echo "$1" | tr '/.' '__').o"; c="$COV"; a="$ACC"; case "$1" in "$HERE"/*) c=""; a="";; */parser/*|*/gen/*|*/src/lib/*|*/queue.c|*/stack.c|*/vector.c) [ "$NOPARSE" ] && c="";; esac; gcc $CF $c $a -c "$1" -o "$o"; }
export -f cc1
xargs -P 8 -I{} bash -c 'cc1 "$1" || exit 255' _ {} < "$OUT/srcs"
gcc $CF $LD -o "$OUT/mdrv" "$OUT"/obj/*.o -lm -lfl -pthread
