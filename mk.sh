#!/bin/bash
# Builds the simulator and driver from /repo's working tree into /verif/build. Incremental on content.
set -e
V=$(cd "$(dirname "$0")" && pwd); R=${REPO:-/repo}; B=${BUILD:-$V/build}
mkdir -p $B
exec 9>$B/.lock; flock 9
CXX=/usr/bin/clang++-18
INC="-std=c++14 -fms-extensions -w -Wno-nonportable-include-path -isystem $V/compat -include $V/compat/msvc_compat.h -I$R/ColorMagic"
INSTR="-O1 -g1 -fno-omit-frame-pointer -fno-stack-protector -fsanitize=thread -fsanitize-coverage=trace-pc-guard -mllvm -tsan-instrument-read-before-write -D_GLIBCXX_EXTERN_TEMPLATE=0 -DNDEBUG"
key() { ( cat "$@"; cat $V/mk.sh ) | sha256sum | cut -c1-24; }
# everything the instrumented part is made from
K1=$( (cd $R/ColorMagic && find . -type f \( -name '*.cpp' -o -name '*.h' \) -print0 | sort -z | xargs -0 sha256sum; cat $V/sim/client.cpp $V/sim/core.h $V/sim/opdefs.h $V/compat/* $V/mk.sh) | sha256sum | cut -c1-24)
K2=$(key $V/sim/core.cpp $V/sim/core.h $V/sim/ambient.cpp $V/sim/server.cpp)
if [ "$(cat $B/simrun.key 2>/dev/null)" != "$K1$K2" ]; then
	rm -rf "${B:?}/obj.new"; mkdir -p $B/obj.new; O=$B/obj.new
	jobs=()
	$CXX -std=c++17 -O2 -g1 -w -fno-stack-protector -c $V/sim/core.cpp -o $O/core.o & jobs+=($!)
	$CXX -std=c++17 -O2 -g1 -w -c $V/sim/ambient.cpp -o $O/ambient.o & jobs+=($!)
	$CXX -std=c++17 -O2 -g1 -w -c $V/sim/server.cpp -o $O/server.o & jobs+=($!)
	$CXX $INC $INSTR -I$V/sim -c $V/sim/client.cpp -o $O/client.o & jobs+=($!)
	SUT=""
	i=0
	for f in $R/ColorMagic/*.cpp $R/ColorMagic/manipulation/*.cpp $R/ColorMagic/spaces/*.cpp $R/ColorMagic/utils/*.cpp; do
		[ -e "$f" ] || continue
		i=$((i+1)); $CXX $INC $INSTR -c "$f" -o $O/sut$i.o & jobs+=($!)
		SUT="$SUT $O/sut$i.o"
		while [ $(jobs -rp | wc -l) -ge ${JOBS:-8} ]; do wait -n || { echo "build failed" >&2; exit 2; }; done
	done
	for j in "${jobs[@]}"; do wait $j || { echo "build failed" >&2; exit 2; }; done
	W=""
	for s in malloc free calloc realloc aligned_alloc posix_memalign malloc_usable_size \
		pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_clocklock pthread_mutex_unlock pthread_spin_lock pthread_spin_trylock pthread_spin_unlock \
		pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_wrlock pthread_rwlock_trywrlock pthread_rwlock_unlock \
		pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast \
		sched_yield nanosleep clock_nanosleep usleep sleep __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_once pthread_create __cxa_thread_atexit \
		time clock_gettime gettimeofday clock rand random srand srandom drand48 lrand48 mrand48 srand48 getrandom getentropy _ZNSt13random_device9_M_getvalEv \
		setlocale uselocale _ZNSt6locale6globalERKS_ setenv unsetenv putenv clearenv sigaction signal pthread_sigmask sigprocmask _ZSt15set_new_handlerPFvvE _ZSt13set_terminatePFvvE \
		open open64 openat fopen fopen64 freopen creat remove unlink rename mkdir chdir system fork abort exit _exit \
		strtok localtime gmtime ctime asctime ecvt fcvt mblen mbtowc wctomb l64a getenv secure_getenv tmpfile mkstemp popen pipe socket execv execve; do W="$W -Wl,--wrap=$s"; done
	$CXX -static -no-pie -g1 -w -o $B/simrun.new $O/client.o $SUT $O/core.o $O/ambient.o $O/server.o $W -lpthread 2>$B/link.log || { cat $B/link.log >&2; exit 2; }
	mv $B/simrun.new $B/simrun; echo "$K1$K2" >$B/simrun.key
	rm -rf "${B:?}/obj.new"
fi
if [ -e $V/sim/driver.cpp ]; then
	K3=$(key $V/sim/driver.cpp $V/sim/*.h)
	if [ "$(cat $B/simdrive.key 2>/dev/null)" != "$K3" ]; then
		$CXX -std=c++17 -O2 -g1 -w -I$V/sim -o $B/simdrive.new $V/sim/driver.cpp -lpthread
		mv $B/simdrive.new $B/simdrive; echo "$K3" >$B/simdrive.key
	fi
fi
