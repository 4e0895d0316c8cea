#!/bin/bash
# build.sh OUTDIR [OBJ...] : builds the conformance drivers from /repo's working tree
# environment: REPO (default /repo), XDEF extra -D flags for the library, SUF executable suffix
set -e
export LC_ALL=C
unset MAKEFLAGS MFLAGS CFLAGS LDFLAGS
REPO=${REPO:-/repo}
H=$(cd "$(dirname "$0")" && pwd)
OUT=$1; shift
mkdir -p "$OUT/lib$SUF"
L=$REPO/libconcurrent
INC="-I$L/includes -I$L"
# -DCONF_OFF_name: the option "name", which config.h switches on, is off
C=$(echo "$XDEF" | grep -o 'CONF_OFF_[A-Z_]*' | sed 's/^CONF_OFF_//' || true)
if [ -n "$C" ]; then
    mkdir -p "$OUT/lib$SUF/conf"
    cp "$L/config.h" "$OUT/lib$SUF/conf/config.h"
    for c in $C; do sed -i -E "s,^[[:space:]]*#[[:space:]]*define[[:space:]]+$c\b.*,/* $c is off */," "$OUT/lib$SUF/conf/config.h"; done
    INC="-I$OUT/lib$SUF/conf $INC"
fi
if [ "$MAINO" = native ]; then
    # the primitives as users get them: no instrumentation, real threads
    [ -n "$SUF" ] || true
    for f in primitives stats; do gcc -O3 -std=gnu89 -w -mcx16 $INC $XDEF -c $L/primitives/$f.c -o "$OUT/lib$SUF/nat_$f.o"; done
    gcc -O2 -std=gnu11 -fgnu89-inline -w $INC $XDEF -c "$H/native.c" -o "$OUT/lib$SUF/nat_main.o"
    gcc "$OUT/lib$SUF"/nat_*.o -lpthread -latomic -lnuma -lm -o "$OUT/drv_native$SUF"
    exit 0
fi
RF="-fsanitize=thread -O1 -g -std=gnu89 -w -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove -fno-common -fno-strict-aliasing $INC $XDEF"
cc_repo() { # src obj
    gcc $RF -c "$1" -o "$2.t" && objcopy --rename-section .data=vs_data,alloc,load,data,contents --rename-section .bss=vs_bss,alloc,load,data,contents "$2.t" "$2" && rm -f "$2.t"
}
export -f cc_repo; export RF
ls $L/concurrent/*.c $L/primitives/*.c | grep -v /pool.c | xargs -P 8 -I{} bash -c 'cc_repo {} '"$OUT/lib$SUF"'/$(basename {} .c).o'
# -DPOOLBLK=n: the object pool with blocks of n bytes (a plain copy if the constant is no longer called like that)
P=$L/primitives/pool.c
case "$XDEF" in *POOLBLK=*) sed -E 's/(BLOCK_SIZE[[:space:]]*=[[:space:]]*)[^;=]+;/\1POOLBLK;/' "$P" > "$OUT/lib$SUF/pool.c"; P=$OUT/lib$SUF/pool.c;; esac
cc_repo "$P" "$OUT/lib$SUF/pool.o"
cc_repo "$H/world.c" "$OUT/lib$SUF/world_.o"
rm -f "$OUT/lib$SUF/libc.a"
ar rcs "$OUT/lib$SUF/libc.a" "$OUT/lib$SUF"/*.o
W=""
for w in _CAS128 numa_alloc_local numa_alloc_onnode memalign numa_free numa_num_task_nodes numa_num_configured_nodes numa_max_node numa_available numa_pagesize numa_node_of_cpu sysconf sched_setaffinity pthread_setconcurrency sched_yield synchResched synchGetMachineModel pthread_create pthread_join exit memcpy memmove memset malloc calloc free aligned_alloc posix_memalign; do W="$W -Wl,--wrap=$w"; done
gcc -O2 -g -Wall -fno-tree-loop-distribute-patterns -fno-stack-protector -fno-builtin -c "$H/vs.c" -o "$OUT/vs.o" &
gcc -O2 -g -Wall -c "$H/drv_main.c" -o "$OUT/drv_main.o" &
[ ! -f "$H/drv_case.c" ] || gcc -O2 -g -Wall -c "$H/drv_case.c" -o "$OUT/drv_case.o" &
wait
one() {
    o=$1; d=obj; [ -f "$H/obj/$o.c" ] || d=case
    gcc -fsanitize=thread -O1 -g -std=gnu11 -fgnu89-inline -w -fno-builtin-memset $INC $XDEF -c "$H/$d/$o.c" -o "$OUT/lib$SUF/obj_$o.O" &&
    gcc -g -no-pie "$OUT/lib$SUF/obj_$o.O" "$OUT/${MAINO:-drv_main}.o" "$OUT/vs.o" "$OUT/lib$SUF/libc.a" $W -lpthread -latomic -lnuma -lm -o "$OUT/drv_$o$SUF"
}
export -f one; export H OUT SUF INC XDEF W MAINO
[ $# -eq 0 ] || printf '%s\n' "$@" | xargs -P 8 -I{} bash -c 'one {}'
