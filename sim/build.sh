#!/bin/bash
# build.sh OUTDIR VARIANT   (VARIANT: inst | fast)
# Builds the simulator together with the library sources of /repo's working tree.
set -e
OUT=$1; VAR=$2
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${SIM_REPO:-/repo}
SRC=$REPO/lib
mkdir -p "$OUT"
COMMON="-std=c++17 -w -g1 -include cstdint -I$SRC/include -I$SRC/src -I$HERE -fno-pie"
if [ "$VAR" = inst ]; then
  SUT="$COMMON -O1 -DNDEBUG -fopenmp -fsanitize=thread -fno-omit-frame-pointer -DSIM_INSTR"
else
  SUT="$COMMON -O2 -DNDEBUG -fopenmp"
fi
REDEF="--redefine-sym malloc=sim_malloc --redefine-sym free=sim_free --redefine-sym calloc=sim_calloc
 --redefine-sym realloc=sim_realloc --redefine-sym posix_memalign=sim_posix_memalign --redefine-sym aligned_alloc=sim_aligned_alloc
 --redefine-sym memalign=sim_memalign
 --redefine-sym pthread_mutex_lock=sim_mutex_lock --redefine-sym pthread_mutex_unlock=sim_mutex_unlock
 --redefine-sym pthread_mutex_trylock=sim_mutex_trylock
 --redefine-sym pthread_rwlock_rdlock=sim_rwlock_rdlock --redefine-sym pthread_rwlock_wrlock=sim_rwlock_wrlock --redefine-sym pthread_rwlock_tryrdlock=sim_rwlock_tryrdlock
 --redefine-sym pthread_rwlock_trywrlock=sim_rwlock_trywrlock --redefine-sym pthread_rwlock_unlock=sim_rwlock_unlock
 --redefine-sym __cxa_guard_acquire=sim_guard_acquire --redefine-sym __cxa_guard_release=sim_guard_release --redefine-sym __cxa_guard_abort=sim_guard_abort
 --redefine-sym pthread_once=sim_pthread_once --redefine-sym clock_gettime=sim_clock_gettime --redefine-sym gettimeofday=sim_gettimeofday
 --redefine-sym time=sim_time --redefine-sym clock=sim_clock --redefine-sym rand=sim_rand --redefine-sym random=sim_random --redefine-sym srand=sim_srand
 --redefine-sym getpid=sim_getpid --redefine-sym getrandom=sim_getrandom --redefine-sym sched_yield=sim_sched_yield --redefine-sym nanosleep=sim_nanosleep
 --redefine-sym usleep=sim_usleep"
if [ "$VAR" = inst ]; then
  REDEF="$REDEF --redefine-sym memcpy=sim_memcpy --redefine-sym memmove=sim_memmove --redefine-sym memset=sim_memset --redefine-sym memcmp=sim_memcmp"
fi
pids=()
sut() { # src obj
  ( g++ $SUT -c "$1" -o "$2.tmp.o" && objcopy $REDEF "$2.tmp.o" "$2" && rm -f "$2.tmp.o" ) & pids+=($!)
}
LIBOBJ=""
for f in "$SRC"/src/*.cpp; do
  o="$OUT/sut_$(basename "$f" .cpp).o"; sut "$f" "$o"; LIBOBJ="$LIBOBJ $o"
done
sut "$HERE/facade.cpp" "$OUT/facade.o"
HOSTOBJ=""
for f in "$HERE"/rt.cpp "$HERE"/core*.cpp; do
  OH=1; [ "$(basename "$f")" = rt.cpp ] && OH=2
  o="$OUT/$(basename "$f" .cpp).o"; HOSTOBJ="$HOSTOBJ $o"
  ( g++ -std=c++17 -O$OH -g1 -w -fno-pie -I"$HERE" -I"$SRC/src" -c "$f" -o "$o" ) & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
g++ -no-pie $LIBOBJ "$OUT/facade.o" $HOSTOBJ -o "$OUT/sim_$VAR" -lpthread -ldl -rdynamic
