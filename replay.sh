#!/bin/bash
# replay.sh <harness name> <input file>: run one input natively (ASan) against /repo's current tree

H=$(dirname "$(readlink -f "$0")"); W=$(mktemp -d); trap 'rm -rf -- "$W"' EXIT
R=${VP_REPO:-/repo}; I="-I$R -I$R/compiler -I$R/data-structures -I$R/interpreter -I$R/util -I$R/std"
cp "$H/engine/include/vp.h" "$W/"; cd "$W"
srcs=$(sed -n '/add_library(yaslapi/,/)/p' "$R/CMakeLists.txt" | grep -o '[A-Za-z_/-]*\.c\b')
for s in $srcs; do echo "$s"; done | xargs -P8 -I{} sh -c 'gcc -O0 -g -std=gnu99 -w -fsanitize=address -c '"$I $R"'/{} -o r_$(basename {} .c).o'
gcc -O0 -g -std=gnu99 -w -fsanitize=address -DVP_TIER=${VP_TIER:-1} -I. -I"$H/harness" $I -c "$H/harness/$1.c" -o h.o
gcc -O1 -g -w -I. -c "$H/engine/native.c" -o n.o
gcc -fsanitize=address -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup,--wrap=rand h.o n.o r_*.o -lm -ldl -o exe
IN=$(readlink -f "$OLDPWD/$2" 2>/dev/null || readlink -f "$2")
ASAN_OPTIONS=${ASAN_OPTIONS:-detect_leaks=1:fast_unwind_on_malloc=0:allocator_may_return_null=1:detect_stack_use_after_return=1} timeout 20 ./exe "$IN"; echo "exit $?"
