#!/bin/bash
# Runs the same cases in separate processes with different worker counts and compares the hash of
# every event log.  usage: tools/determinism.sh [cases per property and seed] [seeds...]
cd "$(dirname "$0")/.." || exit 3
n=${1:-120}; shift; seeds=${*:-1 2 3 4 5}
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
total=0; bad=0
for p in P01 P02 P03 P04 P05 P06 P07 P08 P09 P10; do
	k=$n; [ $p = P02 ] && k=$((n / 2)); [ $p = P07 ] && k=$((n / 2))
	for s in $seeds; do
		VERIF_SEED=$s SIM_WORKERS=8 build/simdrive hash $p $k > $d/a
		VERIF_SEED=$s SIM_WORKERS=3 build/simdrive hash $p $k > $d/b
		VERIF_SEED=$s SIM_WORKERS=5 HOME=/nonexistent LC_ALL=C build/simdrive hash $p $k > $d/c
		e=$(tr ' ' '\n' < $d/a | grep -c :); total=$((total + e))
		cmp -s $d/a $d/b && cmp -s $d/a $d/c || { bad=$((bad + 1)); echo "MISMATCH $p seed $s"; diff $d/a $d/b | head -2 | cut -c1-300; }
	done
	echo "$p done, $total executions so far"
done
echo "$total executions, each in 3 processes: $bad batches differ"
[ $bad = 0 ]
