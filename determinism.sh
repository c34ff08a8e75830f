#!/bin/bash
# determinism.sh [N] [SEEDS...]  every property, N runs per seed: the event-log digests of the same runs must agree between
# processes, between different shares of the work per process, and between runs in a fresh process each.
cd "$(dirname "$0")" || exit 2
./check.sh build || exit 2
N=${1:-400}; shift
B=$PWD/sim/target/debug/dmisim
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
one() {
    p=$1 s=$2 B=$3 d=$T/$1-$2-$4; mkdir -p "$d"
    "$B" worker $p $s 0 1 $N | grep ^RUN | sort -k2n >"$d/a"
    for w in 0 1 2; do "$B" worker $p $s $w 3 $N; done | grep ^RUN | sort -k2n >"$d/b"
    for w in 0 1 2 3 4 5 6 7 8 9 10; do "$B" worker $p $s $w 11 $N; done | grep ^RUN | sort -k2n >"$d/c"
    for i in $(seq 0 37 $((N-1))); do echo "seed $s $i" | "$B" one $p | grep ^DIGEST; done | cut -d' ' -f2 >"$d/d"
    awk 'NR%37==1{print $3}' "$d/a" >"$d/e"
    if cmp -s "$d/a" "$d/b" && cmp -s "$d/a" "$d/c" && cmp -s "$d/d" "$d/e" && [ "$(wc -l <"$d/a")" = $N ]; then echo "same $p seed $s $4: $N runs"; else echo "DIFFERENT $p seed $s $4"; fi
}
export -f one; export N T
for s in "${@:-1}"; do for i in $(seq -w 1 21); do echo C$i $s $B checked; done; echo C14 $s $PWD/sim/target/fine/debug/dmisim fine; done | xargs -P 8 -L 1 bash -c 'one $0 $1 $2 $3' | sort >"$T/out"
cat "$T/out"; ! grep -q DIFFERENT "$T/out"
