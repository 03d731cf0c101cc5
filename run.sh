#!/bin/bash
# run.sh PROPERTY [quick|thorough]: builds the simulation from /repo's working tree and searches for a
# violation. Exit 0: none found; 1: VIOLATION; anything else: the check itself failed.
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
HERE=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d /tmp/gozwavesim.XXXXXX) || exit 2
trap 'rm -rf "${B:?}"' EXIT
if ! "$HERE/sim/build.sh" "$B" /repo > "$B/build.log" 2>&1; then
    echo "cannot build the simulation from /repo:" >&2
    tail -n 40 "$B/build.log" >&2
    exit 2
fi
TMPDIR=$B "$B/sim" check -prop "$PROP" -tier "$TIER" -seed "$SEED" -verif "$HERE"
exit $?
