#!/bin/bash
# Builds the simulation once: shows that the toolchain works offline, and warms the build cache.
HERE=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d /tmp/gozwavesim.XXXXXX) || exit 2
trap 'rm -rf "${B:?}"' EXIT
"$HERE/sim/build.sh" "$B" /repo
