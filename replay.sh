#!/bin/bash
# replay.sh FILE: builds the simulation from /repo's working tree and replays a violation file.
HERE=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d /tmp/gozwavesim.XXXXXX) || exit 2
trap 'rm -rf "${B:?}"' EXIT
if ! "$HERE/sim/build.sh" "$B" /repo > "$B/build.log" 2>&1; then
    tail -n 40 "$B/build.log" >&2
    exit 2
fi
"$B/sim" replay "$1"
exit $?
