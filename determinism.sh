#!/bin/bash
# determinism.sh [N]: executes the first N runs of every property several times, in one process and in
# several, with different garbage collection and parallelism, and compares the hashes of the event logs.
N=${1:-100}
HERE=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d /tmp/gozwavesim.XXXXXX) || exit 2
trap 'rm -rf "${B:?}"' EXIT
"$HERE/sim/build.sh" "$B" /repo || exit 2
"$B/sim" hashes -n "$N" > "$B/a" &
GOGC=15 GOMAXPROCS=2 "$B/sim" hashes -n "$N" > "$B/b" &
Q=$(((N + 3) / 4))
for k in 0 1 2 3; do GOGC=400 "$B/sim" hashes -from $((k * Q)) -n $Q; done | sort -k1,1 -k2,2n > "$B/c"
wait
head -n -0 "$B/a" | sort -k1,1 -k2,2n > "$B/a1"
sort -k1,1 -k2,2n "$B/b" > "$B/b1"
awk -v n="$N" '$2<n' "$B/c" > "$B/c1"
if cmp -s "$B/a1" "$B/b1" && cmp -s "$B/a1" "$B/c1"; then
    echo "deterministic: $(wc -l < "$B/a1") runs, three executions each, all event logs equal"
else
    diff "$B/a1" "$B/b1" | head -5; diff "$B/a1" "$B/c1" | head -5
    echo "NOT deterministic"; exit 1
fi
